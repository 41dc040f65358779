"""C03: RGB -> YCbCr -> RGB through the two real converters loses almost nothing."""
import numpy as np
from hypothesis import strategies as st

from lib.pbt import Sub, Info, Violation, rng
from lib.hw import sim, stream_design, stream_run, readies

PID = "C03"
RGB = ["r", "g", "b"]
TOL = 3


def dut():
    def make():
        from migen import Module
        from litevideo.csc.rgb2ycbcr import RGB2YCbCr
        from litevideo.csc.ycbcr2rgb import YCbCr2RGB

        class Chain(Module):
            def __init__(self):
                self.submodules.a = RGB2YCbCr()
                self.submodules.b = YCbCr2RGB()
                self.comb += self.a.source.connect(self.b.sink)
                self.sink = self.a.sink
                self.source = self.b.source
        return Chain()
    return sim("c03", stream_design(make, RGB, RGB))


def dut_f():
    def make():
        from litevideo.csc.rgb2ycbcr import RGB2YCbCr
        return RGB2YCbCr()
    return sim("c03f", stream_design(make, RGB, ["y", "cb", "cr"]))


def check(px, gaps=(), ready=()):
    z = np.zeros((len(px), 2), dtype=np.uint64)
    it = np.hstack([px, z])
    back = stream_run(dut(), RGB, RGB, it, gaps, ready).by["sink"].log[:, 1:4].astype(np.int64)
    yc = stream_run(dut_f(), RGB, ["y", "cb", "cr"], it).by["sink"].log[:, 1:4].astype(np.int64)

    def fail(k, msg):
        raise Violation("pixel {} (r,g,b)={}: {}".format(k, px[k].tolist(), msg),
                        case=None if len(px) <= 8 else {"px": px[max(0, k - 3):k + 2].tolist()})
    if len(back) != len(px) or len(yc) != len(px):
        raise Violation("{} pixels in, {} out of the pair, {} out of the first".format(len(px), len(back), len(yc)))
    err = np.abs(back - px.astype(np.int64))
    inside = ((yc > 0) & (yc < 255)).all(axis=1)
    bad = np.flatnonzero((err > TOL).any(axis=1) & inside)
    if len(bad):
        k = int(bad[0])
        fail(k, "comes back as {} (via {}), more than {} codes away".format(back[k].tolist(), yc[k].tolist(), TOL))
    # a clipped component costs at most the luma headroom
    bad = np.flatnonzero((err > TOL + 14).any(axis=1))
    if len(bad):
        k = int(bad[0])
        fail(k, "comes back as {} (via {})".format(back[k].tolist(), yc[k].tolist()))
    grey = (px[:, 0] == px[:, 1]) & (px[:, 1] == px[:, 2])
    bad = np.flatnonzero(grey & ((yc[:, 1] != 128) | (yc[:, 2] != 128)))
    if len(bad):
        fail(int(bad[0]), "a grey has chroma {}".format(yc[int(bad[0]), 1:].tolist()))
    bad = np.flatnonzero(grey & inside & (err != 0).any(axis=1))
    if len(bad):
        fail(int(bad[0]), "a grey comes back as {}".format(back[int(bad[0])].tolist()))
    return inside


def slab(case):
    if "px" in case:
        return explicit(case)
    lo, hi = case["r"]
    grid = np.stack(np.meshgrid(np.arange(lo, hi, dtype=np.uint64), np.arange(256, dtype=np.uint64),
                                np.arange(256, dtype=np.uint64), indexing="ij"), axis=-1).reshape(-1, 3)
    grid = grid[rng("c03", lo).permutation(len(grid))]
    inside = check(grid)
    return Info(evals=len(grid), distinct=int(inside.sum()), sample=dict(case, pixels=grid[:3].tolist()))


def explicit(case):
    px = np.array(case["px"], dtype=np.uint64).reshape(-1, 3)
    inside = check(px, case.get("gaps", ()), case.get("ready", ()))
    return Info(nontrivial=bool(inside.any()), evals=len(px))


def subs(tier):
    v = st.integers(0, 255)
    px = st.one_of(st.tuples(v, v, v), v.map(lambda x: (x, x, x)),
                   st.tuples(*[st.sampled_from([0, 16, 128, 235, 255])]*3))
    strat = st.fixed_dictionaries({"px": st.lists(px, min_size=1, max_size=30),
                                   "gaps": st.lists(st.integers(0, 3), max_size=6),
                                   "ready": readies(6)})
    return [
        Sub("exhaustive", slab, cases=[{"r": [i, i + 32]} for i in range(0, 256, 32)], exhaustive=True,
            rule="every 8-bit RGB pixel through RGB2YCbCr and YCbCr2RGB connected back to back; non-trivial = no YCbCr component clipped, where the tight bound applies"),
        Sub("stalls", explicit, strategy=strat, quick=150, thorough=4000,
            rule="generated pixel lists (greys and primaries over-represented) under generated gaps and back-pressure; non-trivial = at least one unclipped pixel"),
    ]
