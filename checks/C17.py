import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from stages import *


def main(c):
    st = Front("C17")
    front_run(c, st, ["lex"], "lex", bound="number literals: every digit string up to a length per base with every suffix, boundary values around powers of two, and random spellings", timeout=850)


run("C17", "other", main)
