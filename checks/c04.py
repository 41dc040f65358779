"""C04: the pipelined converters behave as streams: every item in, exactly one
item out, in order, a function of that item only, markers attached, nothing
changes under back-pressure, and nothing stays inside."""
import numpy as np
from hypothesis import strategies as st

from lib.pbt import Sub, Info, Violation, rng
from lib.hw import sim, stream_design, stream_run, readies

PID = "C04"

MODS = {
    "rgb2ycbcr": ("litevideo.csc.rgb2ycbcr", "RGB2YCbCr", ["r", "g", "b"], ["y", "cb", "cr"], 8),
    "ycbcr2rgb": ("litevideo.csc.ycbcr2rgb", "YCbCr2RGB", ["y", "cb", "cr"], ["r", "g", "b"], 8),
    "rgb2rgb16f": ("litevideo.csc.rgb2rgb16f", "RGB2RGB16f", ["r", "g", "b"], ["rf", "gf", "bf"], 8),
    "rgb16f2rgb": ("litevideo.csc.rgb16f2rgb", "RGB16f2RGB", ["rf", "gf", "bf"], ["r", "g", "b"], 16),
    "floatmult": ("litevideo.float_arithmetic.floatmult", "FloatMult", ["in1", "in2"], ["out"], 16),
    "floatadd": ("litevideo.float_arithmetic.floatadd", "FloatAdd", ["in1", "in2"], ["out"], 16),
}


def dut(name):
    mod, cls, i, o, w = MODS[name]

    def ctor():
        import importlib
        return getattr(importlib.import_module(mod), cls)()
    return sim(("c04", name), stream_design(ctor, i, o))


_single = {}


def alone(name, item):
    """what the module makes of this item when it is the only one"""
    k = (name, tuple(item))
    if k not in _single:
        mod, cls, i, o, w = MODS[name]
        r = stream_run(dut(name), i, o, np.array([list(item) + [0, 0]], dtype=np.uint64), latency=24)
        out = r.by["sink"].log
        if len(out) != 1:
            raise Violation("{}: one item in, {} out".format(name, len(out)))
        _single[k] = tuple(out[0, 1:1 + len(o)].tolist())
        if len(_single) > 200000:
            _single.clear()
            return alone(name, item)
    return _single[k]


def oracle(name, items, marks, r, o):
    out = r.by["sink"].log
    if r.by["sink"].viol:
        raise Violation("{}: output changed or was withdrawn while stalled, cycle {}".format(name, r.by["sink"].violt))
    if len(out) != len(items):
        raise Violation("{}: {} items in, {} out".format(name, len(items), len(out)))
    for k, (it, mk, row) in enumerate(zip(items, marks, out.tolist())):
        got = tuple(row[1:1 + len(o)])
        exp = alone(name, it)
        if got != exp:
            raise Violation("{}: item {} = {} gives {}, but {} when sent alone".format(name, k, tuple(it), got, exp))
        if tuple(row[1 + len(o):]) != tuple(mk):
            raise Violation("{}: item {}: (first,last) = {}, expected {}".format(name, k, tuple(row[1 + len(o):]), tuple(mk)))


def case_fn(case):
    name = case["mod"]
    mod, cls, i, o, w = MODS[name]
    items = [tuple(x) for x in case["items"]]
    marks = [tuple(case["marks"][k % len(case["marks"])]) for k in range(len(items))]
    arr = np.array([list(a) + list(b) for a, b in zip(items, marks)], dtype=np.uint64)
    r = stream_run(dut(name), i, o, arr, case["gaps"], case["ready"], case["junk"])
    oracle(name, items, marks, r, o)
    # an item entering a stalled or a moving pipeline leaves within a bounded number of ready cycles
    nt = len(items) >= 3 and len(set(items)) >= 2
    return Info(nontrivial=nt, evals=len(items), labels=[name, "stalled" if set(case["ready"]) - {1} else "free"])


def bulk(case):
    if "items" in case:
        return case_fn(case)
    name = case["mod"]
    mod, cls, i, o, w = MODS[name]
    g = rng("c04", case)
    n = case["n"]
    pool = g.integers(0, 2**w, (64, len(i)))
    idx = g.integers(0, 64, n)
    marks = g.integers(0, 2, (n, 2))
    arr = np.hstack([pool[idx], marks])
    gaps = (g.integers(0, 4, 37)*(g.random(37) < .4)).tolist()
    ready = g.integers(0, 2, 53).tolist() + [1]
    r = stream_run(dut(name), i, o, arr, gaps, ready, g.integers(0, 2**w, 11).tolist())
    out = r.by["sink"].log
    exp = np.array([alone(name, tuple(int(x) for x in p)) for p in pool], dtype=np.uint64)[idx]
    if r.by["sink"].viol or len(out) != n:
        raise Violation("{}: stalled output changed {} times; {} in, {} out".format(name, r.by["sink"].viol, n, len(out)))
    full = np.hstack([exp, marks.astype(np.uint64)])
    bad = np.flatnonzero((out[:, 1:] != full).any(axis=1))
    if len(bad):
        k = int(bad[0])
        raise Violation("{}: item {} = {} gives {}, but {} when sent alone (with first,last)".format(
            name, k, arr[k].tolist(), out[k, 1:].tolist(), full[k].tolist()))
    # full throughput when nobody stalls
    return Info(evals=n, distinct=len(np.unique(arr, axis=0)), sample=dict(case, items=arr[:3].tolist()))


def throughput(case):
    name = case["mod"]
    mod, cls, i, o, w = MODS[name]
    n = case["n"]
    arr = rng("thr", case).integers(0, 2**w, (n, len(i)))
    r = stream_run(dut(name), i, o, np.hstack([arr, np.zeros((n, 2), dtype=np.int64)]))
    acc = r.by["src"].log[:, 0].astype(np.int64)
    out = r.by["sink"].log[:, 0].astype(np.int64)
    if len(out) != n or (np.diff(acc) != 1).any() or (np.diff(out) != 1).any():
        raise Violation("{}: does not sustain one item per cycle".format(name))
    return Info(evals=n, nontrivial=True)


def subs(tier):
    def f(name):
        mod, cls, i, o, w = MODS[name]
        v = st.one_of(st.integers(0, 2**w - 1), st.sampled_from([0, 1, 2**w - 1, 2**(w - 1)]))
        if w == 16:
            v = st.one_of(v, st.integers(0x0400, 0x3bff), st.sampled_from([0x3c00, 0x3800, 0x0400, 0x0001, 0x3bff]))
        return st.fixed_dictionaries({
            "mod": st.just(name),
            "items": st.lists(st.tuples(*[v]*len(i)), min_size=1, max_size=20),
            "marks": st.lists(st.tuples(st.integers(0, 1), st.integers(0, 1)), min_size=1, max_size=5),
            "gaps": st.lists(st.integers(0, 4), max_size=6),
            "ready": readies(8),
            "junk": st.lists(st.integers(0, 2**w - 1), max_size=3)})
    names = sorted(MODS)
    return [
        Sub("stalls", case_fn, strategy=st.sampled_from(names).flatmap(f), quick=500, thorough=8000,
            rule="generated item lists with first/last marks, input gaps, junk on idle inputs and back-pressure, for each of the six converters; non-trivial = at least three items, two of them different"),
        Sub("bulk", bulk, cases=lambda t: [{"mod": m, "n": 40000 if t == "quick" else 1000000} for m in names],
            rule="long runs over a pool of 64 items under pseudo-random gaps and back-pressure; distinct (item, marks) counted"),
        Sub("throughput", throughput, cases=[{"mod": m, "n": 500} for m in names],
            rule="an unstalled run must move one item per cycle; every run counts once"),
    ]
