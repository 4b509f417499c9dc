import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from stages import *


def main(c):
    st = Front("C23")
    front_run(c, st, ["fmt"], "fmt", bound="generated programs with comments at every token boundary, and random layouts", timeout=850)


run("C23", "other", main)
