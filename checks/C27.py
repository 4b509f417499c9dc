import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from stages import *


def main(c):
    st = Front("C27")
    front_run(c, st, ["incr"], "incr", bound="random edit histories over small projects", timeout=850)


run("C27", "other", main)
