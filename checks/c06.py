"""C06: 8-bit pixels <-> half floats in [0, 1]."""
import numpy as np
from hypothesis import strategies as st

from lib.pbt import Sub, Info, Violation, rng
from lib.hw import sim, stream_design, stream_run, readies

PID = "C06"
RGB = ["r", "g", "b"]
RGBF = ["rf", "gf", "bf"]


def to_float():
    def ctor():
        from litevideo.csc.rgb2rgb16f import RGB2RGB16f
        return RGB2RGB16f()
    return sim("to", stream_design(ctor, RGB, RGBF))


def to_int():
    def ctor():
        from litevideo.csc.rgb16f2rgb import RGB16f2RGB
        return RGB16f2RGB()
    return sim("from", stream_design(ctor, RGBF, RGB))


def both():
    def ctor():
        from migen import Module
        from litevideo.csc.rgb2rgb16f import RGB2RGB16f
        from litevideo.csc.rgb16f2rgb import RGB16f2RGB

        class Chain(Module):
            def __init__(self):
                self.submodules.a = RGB2RGB16f()
                self.submodules.b = RGB16f2RGB()
                self.comb += self.a.source.connect(self.b.sink)
                self.sink = self.a.sink
                self.source = self.b.source
        return Chain()
    return sim("both", stream_design(ctor, RGB, RGB))


def lut():
    def make():
        from litevideo.csc.rgb2rgb16f import PIX2PIXFLUT
        from vsim.sim import Design
        m = PIX2PIXFLUT(8, 16)
        d = Design(m)
        d.port("ce", m.ce)
        d.port("pix", m.sink.pix)
        d.out("pixf", m.source.pixf)
        d.latency = m.latency
        return d
    return sim("lut", make)


def f_model(px):
    """x/256 exactly as a half float"""
    return (px.astype(np.float64)/256).astype(np.float16).view(np.uint16).astype(np.uint64)


def i_model(h):
    """floor(256*value), 1.0 saturates at 255"""
    v = h.astype(np.uint16).view(np.float16).astype(np.float64)
    return np.minimum(255, np.floor(v*256)).astype(np.uint64)


def run(kind, px, gaps=(), ready=()):
    d, i, o, m = {"to": (to_float, RGB, RGBF, f_model), "from": (to_int, RGBF, RGB, i_model),
                  "both": (both, RGB, RGB, lambda x: x)}[kind]
    z = np.zeros((len(px), 2), dtype=np.uint64)
    out = stream_run(d(), i, o, np.hstack([px, z]), gaps, ready).by["sink"].log
    if len(out) != len(px):
        raise Violation("{} in, {} out".format(len(px), len(out)))
    exp = m(px)
    bad = np.flatnonzero((out[:, 1:4] != exp).any(axis=1))
    if len(bad):
        k = int(bad[0])
        raise Violation("{}: {} gives {}, expected {}".format(
            {"to": "pixel to float", "from": "float to pixel", "both": "pixel to float to pixel"}[kind],
            px[k].tolist(), out[k, 1:4].tolist(), exp[k].tolist()),
            case=None if len(px) <= 8 else {"kind": kind, "px": px[max(0, k - 3):k + 2].tolist()})


def explicit(case):
    px = np.array(case["px"], dtype=np.uint64).reshape(-1, 3)
    run(case["kind"], px, case.get("gaps", ()), case.get("ready", ()))
    return Info(nontrivial=bool((px != 0).any()), evals=len(px)*3, labels=[case["kind"]])


def exhaustive(case):
    if "px" in case:
        return explicit(case)
    n = 256 if case["kind"] != "from" else 0x3c01
    g = rng("c06", case)
    # every value in every component, with three different permutations
    px = np.stack([g.permutation(n) for _ in range(3)], axis=1).astype(np.uint64)
    run(case["kind"], px)
    return Info(evals=3*n, distinct=3*n, sample=dict(case, items=px[:3].tolist()))


def lut_case(case):
    """the look-up-table variant of the datapath"""
    d = lut()
    px = np.array(case["px"], dtype=np.uint64)
    n = len(px)
    ce = [int(x) for x in case["ce"]]
    r = d.run(n + 4, [dict(kind="play", dom="sys", p=["pix", "ce"], a=np.stack([px, np.array([ce[k % len(ce)] for k in range(n)], dtype=np.uint64)], axis=1)),
                      dict(kind="rec", dom="sys", p=["pix", "ce", "pixf"], name="r")], clock="sys")
    log = r.by["r"].log
    pend = []
    lat = d.design.latency
    for t, p, c, f in log.tolist():
        if len(pend) >= lat and f != int(f_model(np.array([pend[-lat]]))[0]):
            raise Violation("table: pixel {} gives {:#06x}".format(pend[-lat], f))
        if c:
            pend.append(p)
    return Info(nontrivial=len(pend) > 1, evals=len(pend))


def subs(tier):
    px = st.tuples(*[st.integers(0, 255)]*3)
    fx = st.tuples(*[st.one_of(st.integers(0, 0x3c00), st.sampled_from([0, 1, 0x3c00, 0x3bff, 0x03ff, 0x0400, 0x1c00, 0x1bff, 0x1fff, 0x2000]))]*3)
    strat = st.sampled_from(["to", "from", "both"]).flatmap(lambda k: st.fixed_dictionaries({
        "kind": st.just(k), "px": st.lists(fx if k == "from" else px, min_size=1, max_size=20),
        "gaps": st.lists(st.integers(0, 3), max_size=5),
        "ready": readies(6)}))
    return [
        Sub("exhaustive", exhaustive, cases=lambda t: [{"kind": k, "rep": r} for k in ("to", "from", "both") for r in range(3 if t == "quick" else 200)],
            rule="every 8-bit value (or every half float in [0,1]) in each of the three components, in independent random orders"),
        Sub("stalls", explicit, strategy=strat, quick=300, thorough=5000,
            rule="generated lists with gaps and back-pressure; non-trivial = a component is not zero"),
        Sub("table", lut_case, cases=[{"px": list(range(256)) + list(range(255, -1, -1)), "ce": c} for c in ([1], [1, 0], [1, 1, 0, 1])],
            rule="every pixel value through the look-up-table datapath with the clock enable toggling"),
    ]
