"""C01: RGB -> YCbCr conversion computes the documented fixed-point equation."""
import numpy as np
from hypothesis import strategies as st

from lib.pbt import Sub, Info, Violation, rng
from lib.hw import sim, stream_design, stream_run, first_diff, readies

PID = "C01"
IN = ["r", "g", "b"]
OUT = ["y", "cb", "cr"]

CA, CB, CC, CD = 0.1819, 0.0618, 0.5512, 0.6495   # XAPP930


def model(rgb, w, cw):
    """y = ca*(r-g) + cb*(b-g) + g + yoffset; cb = cc*(b-yraw) + coffset; cr = cd*(r-yraw) + coffset
    in fixed point: coefficients truncated to cw fraction bits, products floored, results saturated"""
    r, g, b = (rgb[:, i].astype(np.int64) for i in range(3))
    ca, cb, cc, cd = (int(x*2**cw) for x in (CA, CB, CC, CD))
    yraw = ((ca*(r - g) + cb*(b - g)) >> cw) + g
    top = 2**w - 1
    y = np.clip(yraw + 2**(w - 4), 0, top)
    u = np.clip(((cc*(b - yraw)) >> cw) + 2**(w - 1), 0, top)
    v = np.clip(((cd*(r - yraw)) >> cw) + 2**(w - 1), 0, top)
    return np.stack([y, u, v], axis=1).astype(np.uint64)


def dut(w, cw):
    def ctor():
        from litevideo.csc.rgb2ycbcr import RGB2YCbCr
        # the documented defaults are 8 bits
        return RGB2YCbCr() if w == cw == 8 else RGB2YCbCr(rgb_w=w, ycbcr_w=w, coef_w=cw)
    return sim(("rgb2ycbcr", w, cw), stream_design(ctor, IN, OUT))


def run(w, cw, px, gaps=(), ready=()):
    s = dut(w, cw)
    z = np.zeros((len(px), 2), dtype=np.uint64)
    r = stream_run(s, IN, OUT, np.hstack([px, z]), gaps, ready)
    out = r.by["sink"].log[:, 1:4]
    exp = model(px, w, cw)
    k = first_diff(out, exp)
    if k is not None:
        got = out[k].tolist() if k < len(out) else None
        raise Violation("{}-bit, {} coefficient bits: pixel {} (r,g,b)={} gives (y,cb,cr)={}, expected {}".format(
            w, cw, k, px[k].tolist() if k < len(px) else None, got, exp[k].tolist() if k < len(exp) else None),
            case=None if len(px) <= 8 else {"w": w, "cw": cw, "px": px[max(0, k - 3):k + 2].tolist(),
                                            "gaps": [], "ready": []})
    return exp


def explicit(case):
    px = np.array(case["px"], dtype=np.uint64).reshape(-1, 3)
    exp = run(case["w"], case["cw"], px, case.get("gaps", ()), case.get("ready", ()))
    top = 2**case["w"] - 1
    sat = bool(((exp == 0) | (exp == top)).any())
    return Info(nontrivial=len(px) > 0 and bool((px != px[0]).any()), evals=len(px),
                labels=["saturating"] if sat else ["in range"])


def exhaustive(case):
    """one slab of the full 2^24 space: all g,b for a range of r"""
    if "px" in case:
        return explicit(case)
    lo, hi = case["r"]
    r = np.arange(lo, hi, dtype=np.uint64)
    grid = np.stack(np.meshgrid(r, np.arange(256, dtype=np.uint64), np.arange(256, dtype=np.uint64), indexing="ij"),
                    axis=-1).reshape(-1, 3)
    # neighbouring pixels must not be almost equal, or a stale operand would hide
    grid = grid[rng("c01", lo).permutation(len(grid))]
    run(8, 8, grid)
    return Info(evals=len(grid), distinct=len(grid), sample=dict(case, pixels=grid[:3].tolist()))


def bulk(case):
    if "px" in case:
        return explicit(case)
    w, cw, n = case["w"], case["cw"], case["n"]
    g = rng("c01b", case)
    px = g.integers(0, 2**w, (n, 3), dtype=np.uint64)
    k = g.random((n, 3))
    px[k < .15] = 0
    px[k > .85] = 2**w - 1
    exp = run(w, cw, px)
    d = len(np.unique(px, axis=0))
    return Info(evals=n, distinct=d, sample=dict(case, pixels=px[:3].tolist()), labels=["w{} cw{}".format(w, cw)])


def subs(tier):
    slabs = [(i, i + 32) for i in range(0, 256, 32)]
    vals = lambda w: st.one_of(st.integers(0, 2**w - 1), st.sampled_from([0, 1, 2**w - 1, 2**(w - 1), 2**(w - 1) - 1]))
    strat = st.tuples(st.sampled_from([4, 6, 8, 10, 12]), st.sampled_from([6, 8, 10])).flatmap(
        lambda p: st.fixed_dictionaries({
            "w": st.just(p[0]), "cw": st.just(p[1]),
            "px": st.lists(st.tuples(vals(p[0]), vals(p[0]), vals(p[0])), min_size=1, max_size=24),
            "gaps": st.lists(st.integers(0, 3), max_size=6),
            "ready": readies(6)}))
    return [
        Sub("exhaustive", exhaustive, cases=[{"r": list(s)} for s in slabs], exhaustive=True,
            rule="every one of the 2^24 8-bit RGB pixels once, in a shuffled order so that consecutive pixels differ; all are non-trivial"),
        Sub("widths", bulk, cases=lambda t: [{"w": w, "cw": cw, "n": 20000 if t == "quick" else 2000000, "k": k}
                                             for w in (4, 6, 8, 10, 12) for cw in (6, 8, 10) for k in range(1 if t == "quick" else 3)],
            rule="uniform pixels with 30% extreme components for other sample and coefficient widths; distinct pixels counted"),
        Sub("stalls", explicit, strategy=strat, quick=150, thorough=4000,
            rule="generated pixel lists with generated input gaps and output back-pressure; non-trivial = at least two different pixels"),
    ]
