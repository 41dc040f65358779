"""C11: the timing generator's raster."""
import numpy as np
from hypothesis import strategies as st

from lib.pbt import Sub, Info, Violation, rng
from lib.hw import sim
from vsim.sim import Design

PID = "C11"
PAR = ["hres", "hsync_start", "hsync_end", "hscan", "vres", "vsync_start", "vsync_end", "vscan"]
OUT = ["valid", "de", "hsync", "vsync", "last"]


def dut():
    def make():
        from litevideo.output.core import TimingGenerator
        m = TimingGenerator()
        d = Design(m)
        d.port("i_valid", m.sink.valid)
        d.port("i_ready", m.sink.ready)
        for n in PAR:
            d.port(n, getattr(m.sink, n))
        d.port("ready", m.source.ready)
        for n in OUT:
            d.port(n, getattr(m.source, n))
        return d
    return sim("timing", make)


def frame(p):
    """(T, 4) array of de, hsync, vsync, last for one frame, in order"""
    hres, hs, he, hscan, vres, vs, ve, vscan = p
    x = np.arange(hscan + 1)
    y = np.arange(vscan + 1)[:, None]
    f = np.zeros((vscan + 1, hscan + 1, 4), dtype=np.uint64)
    f[..., 0] = (x < hres) & (y < vres)
    f[..., 1] = (x >= hs) & (x < he)
    f[..., 2] = (y >= vs) & (y < ve)
    f[-1, -1, 3] = 1
    return f.reshape(-1, 4)


def model(sched, readies):
    """clock by clock: expected outputs.  sched: per clock parameter-set index or
    None, except that a set is replaced only after it was consumed: here the
    caller gives the offered set for each clock as a function of consumption."""


def run_case(sets, drops, ready, n):
    """Offers sets[0], sets[1], ... (the last one for ever), each until consumed;
    drops: list of (clock, length) during which no parameters are offered.
    The expected offer of every clock comes from the model, so that the stimulus
    is a fixed list; consumption is compared as well."""
    frames = [frame(p) for p in sets]
    off = np.zeros(n, dtype=bool)
    for c, l in drops:
        off[c:c + l] = True
    rd = np.array([ready[k % len(ready)] for k in range(n)], dtype=np.uint64)
    k = 0            # set on offer
    pos = -1         # -1: lead-in clock, the last position of no frame
    stim = np.zeros((n, 1 + len(PAR)), dtype=np.uint64)
    exp = np.zeros((n, 6), dtype=np.uint64)    # valid, de, hsync, vsync, last, i_ready
    base = [None]*len(sets)
    for i, p in enumerate(sets):
        base[i] = np.array([1] + list(p), dtype=np.uint64)
    for t in range(n):
        if off[t]:
            pos = -1
            continue
        stim[t] = base[k]
        f = frames[k]
        if pos < 0:
            exp[t, 0] = 1
            if rd[t]:
                pos = 0
        else:
            exp[t, 0] = 1
            exp[t, 1:5] = f[pos]
            if rd[t]:
                if pos == len(f) - 1:
                    exp[t, 5] = 1
                    pos = 0
                    k = min(k + 1, len(sets) - 1)
                else:
                    pos += 1
    r = dut().run(n, [dict(kind="play", dom="sys", p=["i_valid"] + PAR, a=stim),
                      dict(kind="play", dom="sys", p=["ready"], a=rd[:, None]),
                      dict(kind="rec", dom="sys", name="o", p=OUT + ["i_ready"])], clock="sys")
    o = r.by["o"].log[:, 1:]
    # outputs mean nothing while no parameters are offered, except valid
    cmp_ = o.copy()
    cmp_[~stim[:, 0].astype(bool), 1:] = 0
    bad = np.flatnonzero((cmp_ != exp).any(axis=1))
    if len(bad):
        t = int(bad[0])
        raise Violation("clock {}: (valid, de, hsync, vsync, last, parameters taken) = {}, expected {} with {}".format(
            t, o[t].tolist(), exp[t].tolist(), dict(zip(PAR, stim[t, 1:].tolist()))))
    return exp


def small(case):
    sets = [tuple(p) for p in case["sets"]]
    n = case["n"]
    e = run_case(sets, [tuple(x) for x in case["drops"]], case["ready"], n)
    return Info(nontrivial=bool(e[:, 4].any()), evals=n,
                labels=["drops" if case["drops"] else "steady", "stalled" if 0 in case["ready"] else "free", "sets{}".format(len(sets))])


def large(case):
    """whole frames of real or extreme rasters, free running"""
    p = tuple(case["p"])
    f = frame(p)
    n = len(f)*case["frames"] + 3
    a = np.array([[1] + list(p)], dtype=np.uint64)
    r = dut().run(n, [dict(kind="play", dom="sys", p=["i_valid"] + PAR, a=a),
                      dict(kind="play", dom="sys", p=["ready"], a=[[1]]),
                      dict(kind="rec", dom="sys", name="o", p=OUT + ["i_ready"])], clock="sys")
    o = r.by["o"].log[1:, 1:]
    e = np.concatenate([f]*case["frames"])
    m = min(len(o), len(e))
    bad = np.flatnonzero((o[:m, 1:5] != e[:m]).any(axis=1) | (o[:m, 5] != e[:m, 3]) | (o[:m, 0] != 1))
    if len(bad):
        t = int(bad[0])
        raise Violation("frame {}, line {}, clock {}: (valid, de, hsync, vsync, last, taken) = {}, expected {}".format(
            t//len(f), t % len(f)//(p[3] + 1), t % len(f) % (p[3] + 1), o[t].tolist(), e[t].tolist()))
    return Info(evals=n, distinct=len(f), sample=dict(zip(PAR, p)))


@st.composite
def axis(draw, big):
    """(res, sync start, sync end, scan) with 0 < res <= start < end <= scan"""
    res = draw(st.integers(1, big))
    fp = draw(st.integers(0, 4))
    sy = draw(st.integers(1, 5))
    bp = draw(st.integers(0, 4))
    return (res, res + fp, res + fp + sy, res + fp + sy + bp)


@st.composite
def cases(draw):
    sets = draw(st.lists(st.tuples(axis(12), axis(6)).map(lambda x: list(x[0] + x[1])), min_size=1, max_size=3))
    n = draw(st.integers(20, 900))
    return {"sets": sets, "n": n,
            "ready": draw(st.one_of(st.just([1]), st.lists(st.integers(0, 1), min_size=1, max_size=12).map(lambda l: l + [1]))),
            "drops": [list(x) for x in draw(st.one_of(st.just([]), st.lists(st.tuples(st.integers(0, n), st.integers(1, 6)), max_size=3)))]}


REAL = [
    (640, 656, 752, 799, 480, 490, 492, 524),
    (1280, 1390, 1430, 1649, 720, 725, 730, 749),
    (1920, 2008, 2052, 2199, 1080, 1084, 1089, 1124),
    (4090, 4091, 4093, 4095, 2, 2, 3, 4),
    (1, 1, 2, 2, 4090, 4091, 4092, 4095),
    (2048, 2049, 4095, 4095, 1, 2, 3, 3),
    (1, 1, 2, 2, 1, 1, 2, 2),
]


def subs(tier):
    return [
        Sub("rasters", small, strategy=cases(), quick=600, thorough=15000,
            rule="generated small rasters, sequences of parameter sets, stalls and removals of the parameters, compared clock by clock; non-trivial = at least one whole frame"),
        Sub("real", large, cases=[{"p": p, "frames": 2} for p in REAL],
            rule="two whole frames of standard and extreme rasters; every clock of the frame counts"),
    ]
