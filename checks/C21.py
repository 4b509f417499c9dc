import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from stages import *


def main(c):
    st = Front("C21", extract=[("crates/compiler/semantic/src/db.rs", ["detect_import_cycle", "topological_sort"], "graph_extracted.rs", "verif_private")])
    front_run(c, st, ["graph"], "graph", bound="every import graph on up to four modules, and random larger ones", timeout=850)


run("C21", "other", main)
