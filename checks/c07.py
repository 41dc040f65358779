"""C07: half-float multiplication of non-negative finite operands."""
import numpy as np
from hypothesis import strategies as st

from lib import half
from lib.pbt import Sub, Info, Violation, rng
from lib.hw import sim, stream_design, stream_run, readies

PID = "C07"
OPNAME = "*"
MODULE, CLASS = "litevideo.float_arithmetic.floatmult", "FloatMult"
ref = half.mul


def dut():
    def ctor():
        import importlib
        return getattr(importlib.import_module(MODULE), CLASS)()
    return sim(CLASS, stream_design(ctor, ["in1", "in2"], ["out"]))


def run(a, b, gaps=(), ready=(), junk=()):
    exp = ref(a, b)
    items = np.stack([a, b, 0*a, 0*a], axis=1).astype(np.uint64)
    out = stream_run(dut(), ["in1", "in2"], ["out"], items, gaps, ready, junk).by["sink"].log
    if len(out) != len(a):
        raise Violation("{} pairs in, {} results out".format(len(a), len(out)))
    got = out[:, 1].astype(np.int64)
    bad = np.flatnonzero((got != exp) & (exp >= 0))
    if len(bad):
        k = int(bad[0])
        raise Violation("{:#06x} {} {:#06x} gives {:#06x}, expected {:#06x}".format(
            int(a[k]), OPNAME, int(b[k]), int(got[k]), int(exp[k])),
            case=None if len(a) <= 8 else {"pairs": [[int(x), int(y)] for x, y in zip(a[max(0, k - 3):k + 3], b[max(0, k - 3):k + 3])]})
    return exp


def explicit(case):
    p = np.array(case["pairs"], dtype=np.int64).reshape(-1, 2)
    exp = run(p[:, 0], p[:, 1], case.get("gaps", ()), case.get("ready", ()), case.get("junk", ()))
    inside = exp >= 0
    labels = []
    if (exp == 0).any():
        labels.append("zero result")
    if ((exp > 0) & (exp < 1024)).any():
        labels.append("subnormal result")
    if (exp < 0).any():
        labels.append("overflow (result unspecified)")
    return Info(nontrivial=bool(((exp > 0)).any()), evals=int(inside.sum()), labels=labels)


def bulk(case):
    if "pairs" in case:
        return explicit(case)
    n = case["n"]
    g = rng(CLASS, case)
    if case["kind"] == "uniform":
        a = g.integers(0, 0x7c00, n)
        b = g.integers(0, 0x7c00, n)
    elif case["kind"] == "edge":
        # few-bit mantissas and extreme exponents
        def e():
            m = g.choice([0, 1, 2, 3, 511, 512, 513, 1022, 1023], n)
            return (g.integers(0, 31, n) << 10) | m
        a, b = e(), e()
    elif case["kind"] == "small":
        a = g.integers(0, 0x0c00, n)
        b = g.integers(0, 0x7c00, n)
    else:   # near: comparable exponents
        e = g.integers(0, 31, n)
        a = (e << 10) | g.integers(0, 1024, n)
        b = (np.clip(e + g.integers(-12, 13, n), 0, 30) << 10) | g.integers(0, 1024, n)
    if case.get("swap"):
        a, b = b, a
    exp = run(a, b)
    ok = exp >= 0
    return Info(evals=int(ok.sum()), distinct=len(np.unique((a*65536 + b)[exp > 0])),
                sample=dict(case, pairs=np.stack([a, b], axis=1)[:3].tolist()), labels=[case["kind"]])


def slab(case):
    """every pair whose first operand is k, k + 256, ..., in a random order"""
    if "pairs" in case:
        return explicit(case)
    a = np.arange(case["k"], 0x7c00, 256)
    b = np.arange(0x7c00)
    p = rng(CLASS, "slab", case["k"]).permutation(len(a)*len(b))
    a, b = a[p//len(b)], b[p % len(b)]
    exp = run(a, b)
    return Info(evals=int((exp >= 0).sum()), distinct=int((exp > 0).sum()), sample=dict(case, pairs=np.stack([a, b], axis=1)[:3].tolist()))


def subs(tier):
    v = st.one_of(st.integers(0, 0x7bff), st.sampled_from([0, 1, 2, 0x3ff, 0x400, 0x401, 0x3bff, 0x3c00, 0x3c01, 0x7bff, 0x0800, 0x1400, 0x3555]),
                  st.tuples(st.integers(0, 30), st.integers(0, 1023)).map(lambda p: p[0] << 10 | p[1]))
    strat = st.fixed_dictionaries({
        "pairs": st.lists(st.tuples(v, v), min_size=1, max_size=16),
        "gaps": st.lists(st.integers(0, 3), max_size=5),
        "ready": readies(6),
        "junk": st.lists(st.integers(0, 65535), max_size=3)})
    n = 300000
    return [
        Sub("pairs", explicit, strategy=strat, quick=400, thorough=8000,
            rule="generated operand lists (edge values over-represented) with gaps, junk and back-pressure; pairs whose exact result is 65536 or more are not judged; non-trivial = some result is neither zero nor overflow"),
        Sub("bulk", bulk, cases=[{"kind": k, "n": n, "swap": s} for k in ("uniform", "edge", "small", "near") for s in (0, 1)],
            rule="back-to-back operand pairs by family; distinct pairs with a judged non-zero result counted"),
        Sub("all", slab, cases=[{"k": k} for k in range(256)], exhaustive=True,
            rule="every pair of non-negative finite half floats once, in a random order of neighbours; pairs with a judged non-zero result counted"),
    ]
