"""C36: several inputs and outputs in one design."""
from hypothesis import strategies as st

from lib.pbt import Sub
from lib import several
from checks import c34

PID = "C36"
ASSUMPTIONS = ["the parts are submodules with names of their own, so that Migen tells their clock domains apart; the memory port of an output is in the output's pixel clock domain",
               "the clocks of the other parts tick with those of the part under test; their registers, wires and memories carry noise",
               "vendor primitives are models, as for C34"]
I7, I7Y, I7D = ("in", 7, True, "rgb", 128, 0), ("in", 7, True, "ycbcr422", 64, 2), ("in", 7, False, "rgb", 32, 0)
I6, I6Y = ("in", 6, False, "ycbcr422", 16, 5), ("in", 6, True, "rgb", 128, 7)
O7, O7Y, O6, O6Y = ("out", 7, "rgb", 0), ("out", 7, "ycbcr422", 13), ("out", 6, "rgb", 9), ("out", 6, "ycbcr422", 2)
# (neighbours, None where the part under test is; output and input under test)
PLACES = [((None, I7, O7Y), (7, "ycbcr422", 13, 64), (7, True, "ycbcr422", 64, 2)),
          ((I7Y, None, O7), (7, "rgb", 0, 64), (7, False, "rgb", 32, 0)),
          ((O6, None, I6, ("shared",)), (6, "ycbcr422", 2, 512), (6, False, "ycbcr422", 16, 5)),
          ((I6Y, O6Y, None), (6, "rgb", 9, 512), (6, True, "rgb", 128, 7))]
MORE = [((I7, I7D, O7, O7Y, None), (7, "ycbcr422", 0, 512), (7, True, "rgb", 64, 0)),
        ((None, O6, I6Y, I6, ("shared",)), (6, "ycbcr422", 9, 64), (6, False, "rgb", 64, 0)),
        ((I6, O6, None, ("shared",)), (6, "rgb", 0, 64), (6, True, "ycbcr422", 128, 2)),
        ((O7, None, I7D), (7, "rgb", 13, 512), (7, False, "ycbcr422", 64, 5))]


@st.composite
def cases(draw, places):
    place, o, i = draw(st.sampled_from(places))
    return {"place": [list(x) if x else None for x in place], "loop": draw(c34.cases(pairs=([o], [i])))}


def fn(case):
    place = tuple(tuple(x) if x else None for x in case["place"])
    i = several.within(place, c34.fn, case["loop"])
    i.labels = i.labels + ["parts{}".format(len([x for x in place if x != ("shared",)]))] + (["shared"] if ("shared",) in place else [])
    return i


def subs(tier):
    pl = PLACES + MORE if tier == "thorough" else PLACES
    return [Sub("loop", fn, strategy=cases(pl), quick=60, thorough=2500,
                rule="an output and an input, each checked as in C34 while it is one of three to five named parts of a design, first, last or in between, the clock "
                     "generator of a Spartan-6 output shared or not; non-trivial = two captured frames of at least four words")]
