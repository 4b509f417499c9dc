import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from stages import *


def main(c):
    st = Front("C24")
    front_run(c, st, ["prec"], "prec", bound="every expression of up to four binary operators with unary operators and parentheses, and random larger ones", timeout=850)


run("C24", "other", main)
