"""C02: YCbCr -> RGB conversion computes the documented fixed-point equation."""
import numpy as np
from hypothesis import strategies as st

from lib.pbt import Sub, Info, Violation, rng
from lib.hw import sim, stream_design, stream_run, first_diff, readies

PID = "C02"
IN = ["y", "cb", "cr"]
OUT = ["r", "g", "b"]

CA, CB, CC, CD = 0.1819, 0.0618, 0.5512, 0.6495   # XAPP931
A = 1/CD
B = -CB/(CC*(1 - CA - CB))
C = -CA/(CD*(1 - CA - CB))
D = 1/CC


def model(yc, w, cw):
    """r = y-yoffset + (cr-coffset)*a; g = y-yoffset + (cb-coffset)*b + (cr-coffset)*c;
    b = y-yoffset + (cb-coffset)*d, coefficients truncated to cw-2 fraction bits, every product
    floored, saturated"""
    s = cw - 2
    y, u, v = (yc[:, i].astype(np.int64) for i in range(3))
    a, b, c, d = (int(x*2**s) for x in (A, B, C, D))
    u = u - 2**(w - 1)
    v = v - 2**(w - 1)
    y = y - 2**(w - 4)
    top = 2**w - 1
    return np.stack([np.clip(y + ((v*a) >> s), 0, top),
                     np.clip(y + ((u*b) >> s) + ((v*c) >> s), 0, top),
                     np.clip(y + ((u*d) >> s), 0, top)], axis=1).astype(np.uint64)


def dut(w, cw):
    def ctor():
        from litevideo.csc.ycbcr2rgb import YCbCr2RGB
        return YCbCr2RGB() if w == cw == 8 else YCbCr2RGB(ycbcr_w=w, rgb_w=w, coef_w=cw)
    return sim(("ycbcr2rgb", w, cw), stream_design(ctor, IN, OUT))


def run(w, cw, px, gaps=(), ready=()):
    s = dut(w, cw)
    z = np.zeros((len(px), 2), dtype=np.uint64)
    r = stream_run(s, IN, OUT, np.hstack([px, z]), gaps, ready)
    out = r.by["sink"].log[:, 1:4]
    exp = model(px, w, cw)
    k = first_diff(out, exp)
    if k is not None:
        got = out[k].tolist() if k < len(out) else None
        raise Violation("{}-bit, {} coefficient bits: pixel {} (y,cb,cr)={} gives (r,g,b)={}, expected {}".format(
            w, cw, k, px[k].tolist() if k < len(px) else None, got, exp[k].tolist() if k < len(exp) else None),
            case=None if len(px) <= 8 else {"w": w, "cw": cw, "px": px[max(0, k - 3):k + 2].tolist(),
                                            "gaps": [], "ready": []})
    return exp


def explicit(case):
    px = np.array(case["px"], dtype=np.uint64).reshape(-1, 3)
    exp = run(case["w"], case["cw"], px, case.get("gaps", ()), case.get("ready", ()))
    top = 2**case["w"] - 1
    sat = bool(((exp == 0) | (exp == top)).any())
    return Info(nontrivial=len(px) > 0 and bool((px != px[0]).any()), evals=len(px),
                labels=["saturating"] if sat else ["in range"])


def exhaustive(case):
    if "px" in case:
        return explicit(case)
    lo, hi = case["y"]
    y = np.arange(lo, hi, dtype=np.uint64)
    grid = np.stack(np.meshgrid(y, np.arange(256, dtype=np.uint64), np.arange(256, dtype=np.uint64), indexing="ij"),
                    axis=-1).reshape(-1, 3)
    grid = grid[rng("c02", lo).permutation(len(grid))]
    run(8, 8, grid)
    return Info(evals=len(grid), distinct=len(grid), sample=dict(case, pixels=grid[:3].tolist()))


def bulk(case):
    if "px" in case:
        return explicit(case)
    w, cw, n = case["w"], case["cw"], case["n"]
    g = rng("c02b", case)
    px = g.integers(0, 2**w, (n, 3), dtype=np.uint64)
    k = g.random((n, 3))
    px[k < .15] = 0
    px[k > .85] = 2**w - 1
    run(w, cw, px)
    d = len(np.unique(px, axis=0))
    return Info(evals=n, distinct=d, sample=dict(case, pixels=px[:3].tolist()), labels=["w{} cw{}".format(w, cw)])


def subs(tier):
    slabs = [(i, i + 32) for i in range(0, 256, 32)]
    vals = lambda w: st.one_of(st.integers(0, 2**w - 1), st.sampled_from([0, 1, 2**w - 1, 2**(w - 1), 2**(w - 1) - 1]))
    strat = st.tuples(st.sampled_from([4, 6, 8, 10, 12]), st.sampled_from([6, 8, 10])).flatmap(
        lambda p: st.fixed_dictionaries({
            "w": st.just(p[0]), "cw": st.just(p[1]),
            "px": st.lists(st.tuples(vals(p[0]), vals(p[0]), vals(p[0])), min_size=1, max_size=24),
            "gaps": st.lists(st.integers(0, 3), max_size=6),
            "ready": readies(6)}))
    return [
        Sub("exhaustive", exhaustive, cases=[{"y": list(s)} for s in slabs], exhaustive=True,
            rule="every one of the 2^24 8-bit YCbCr triples once, in a shuffled order so that consecutive pixels differ; all are non-trivial"),
        Sub("widths", bulk, cases=lambda t: [{"w": w, "cw": cw, "n": 20000 if t == "quick" else 2000000, "k": k}
                                             for w in (4, 6, 8, 10, 12) for cw in (6, 8, 10) for k in range(1 if t == "quick" else 3)],
            rule="uniform pixels with 30% extreme components for other sample and coefficient widths; distinct pixels counted"),
        Sub("stalls", explicit, strategy=strat, quick=150, thorough=4000,
            rule="generated pixel lists with generated input gaps and output back-pressure; non-trivial = at least two different pixels"),
    ]
