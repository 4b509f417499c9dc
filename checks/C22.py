import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from stages import *


def main(c):
    st = Front("C22")
    front_run(c, st, ["docs"], "docs", bound="every document up to a size over a small alphabet, and random larger ones, at many widths", timeout=850)
    m = "doc::verif_doc::"
    if not c.violations:
        c.core(lambda: stage_doc("C22k"), "cairo-m-formatter",
               [m + h for h in ("render_concat", "measure_concat", "render_group", "render_leaves", "fits_is_flat_measure", "measure_group_and_indent", "measure_leaves", "measure_text")],
               z=("stubbing",), hto=300, kind=lambda h: "bounded" if h.endswith("concat") else "proof", bound="sequences of three or four parts, the parts arbitrary")
    c.functions = ["Renderer::render_doc", "Renderer::measure", "Renderer::fits"]
    c.trusted = TRUSTED_FRONT[:1]
    c.assumptions = ["structural induction over documents: the contract of every recursive call is assumed for the components and proved for the whole",
                     "rendering of indented parts is covered by the executable contract only"]


run("C22", "proof", main)
