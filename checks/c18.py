"""C18: terminal display."""
import numpy as np
from hypothesis import strategies as st

from lib.pbt import Sub, Info, Violation, rng
from lib import term
from lib.term import FRAME, SIZE, FONT

PID = "C18"


def contents(case):
    g = rng("c18", case["seed"])
    m = np.concatenate([term.initial("screen-init.bin", FONT), term.initial("cp437.bin", SIZE - FONT)])
    k = case["kind"]
    if k in ("random", "screen"):
        m[:FONT] = g.integers(0, 256, FONT)
    if k in ("random", "font"):
        m[FONT:] = g.integers(0, 256, SIZE - FONT)
    if k == "walk":
        # every character and colour pair at changing places, sparse font
        n = np.arange(FONT//2)
        m[0:FONT:2] = (n*int(case["seed"] | 1) + case["seed"]) & 255
        m[1:FONT:2] = (n*int(g.integers(0, 128)*2 + 1)) & 255
        m[FONT:] = 1 << g.integers(0, 8, SIZE - FONT)
    if k == "column":
        m[:FONT] = 0
        m[FONT:] = 0
        m[FONT:FONT + 16] = g.integers(0, 256, 16)
        m[1:FONT:2] = g.integers(0, 256, FONT//2)
    return m


def fn(case):
    s = term.dut(case["pads"])
    k = case["kind"]
    init = np.concatenate([term.initial("screen-init.bin", FONT), term.initial("cp437.bin", SIZE - FONT)])
    m = contents(case)
    a = np.flatnonzero(m != init)
    items = np.stack([a, np.ones_like(a), m[a]], axis=1)
    ps, pv = case["ps"], case["pv"]
    # the first frame is used to write; then complete frames are looked at
    nf = case["frames"]
    n = FRAME*(1 + nf) + 3*term.LINE
    r, ts = term.run(s, items, (), (), [(0, 0)], n, ps, pv, case["ph"])
    acc = r.by["src"].log
    if len(acc) != len(items):
        raise Violation("{} of {} bus writes were acknowledged".format(len(acc), len(items)))
    v = r.by["v"].log[:, 1].astype(np.int64)
    f = [x for x in term.frames(v) if x > FRAME//2 and x + FRAME + 1 <= len(v)]
    if not f:
        raise Violation("no complete frame within {} clocks after the first one".format(n))
    want = term.render(m)
    for x in f:
        got = term.check_timing(v, x)
        d = np.argwhere(got != want)
        if len(d):
            y, c = (int(q) for q in d[0])
            raise Violation("pixel ({}, {}) is {:#08x}, the RAM says {:#08x} (cell ({}, {}): character {}, colour {:#x})".format(
                c, y, int(got[y, c]), int(want[y, c]), c//8, y//16, int(m[2*(y//16*80 + c//8)]), int(m[2*(y//16*80 + c//8) + 1])))
    return Info(nontrivial=True, evals=len(f)*480*640, labels=[k])


def empty(case):
    """initialisation files, or none"""
    s = term.dut(False, case["font"], case["screen"])
    m = np.concatenate([term.initial(case["screen"], FONT), term.initial(case["font"], SIZE - FONT)])
    r, ts = term.run(s, np.zeros((0, 3)), (), (), [(0, 0)], 2*FRAME + 3*term.LINE, 1, 1, 0)
    v = r.by["v"].log[:, 1].astype(np.int64)
    f = [x for x in term.frames(v) if x + FRAME + 1 <= len(v)]
    if not f:
        raise Violation("no complete frame within two frame times")
    got = term.check_timing(v, f[-1])
    d = np.argwhere(got != term.render(m))
    if len(d):
        raise Violation("with initial contents {}: pixel {} is {:#x}".format(case, d[0].tolist(), int(got[tuple(d[0])])))
    return Info(nontrivial=True, evals=480*640)


cases = st.fixed_dictionaries({"seed": st.integers(0, 2**16), "kind": st.sampled_from(["random", "random", "screen", "font", "walk", "column"]),
                               "pads": st.booleans(), "ps": st.integers(1, 3), "pv": st.integers(1, 3), "ph": st.integers(0, 2), "frames": st.just(1)})


def subs(tier):
    return [
        Sub("pictures", fn, strategy=cases, quick=14, thorough=200,
            rule="generated screen, attribute and font RAM contents written over the bus, whole frames compared pixel by pixel with their timing"),
        Sub("initial", empty, cases=[{"font": a, "screen": b} for a in ("cp437.bin", "") for b in ("screen-init.bin", "")], rule="initial contents"),
    ]
