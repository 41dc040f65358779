"""C23: sync polarity normalisation."""
import numpy as np
from hypothesis import strategies as st

from lib.pbt import Sub, Info, Violation, rng
from lib.hw import sim
from vsim.sim import Design, clocks

PID = "C23"
IN = ["valid_i", "de", "c", "d0", "d1", "d2", "raw0", "raw1", "raw2"]
OUT = ["valid_o", "de", "hsync", "vsync", "r", "g", "b", "c0", "c1", "c2"]


def dut(hdmi):
    def make():
        from litevideo.input.analysis import SyncPolarity
        m = SyncPolarity(hdmi)
        d = Design(m, ["pix", "pix_o"])
        d.port("valid_i", m.valid_i)
        if hdmi:
            d.port("de", m.de_int)
        else:
            d.port("de", m.data_in0.de)
        d.port("c", m.data_in0.c)
        for i in range(3):
            x = getattr(m, "data_in{}".format(i))
            d.port("d{}".format(i), x.d)
            d.port("raw{}".format(i), x.raw)
        for n in OUT:
            d.port("o_" + n, getattr(m, n))
        return d
    return sim(("syncpol", hdmi), make)


def stimulus(case):
    g = rng("c23", case["seed"])
    de, c, v = [], [], []
    for act, blank, valid in case["lines"]:
        de += [1]*act
        c += [c[-1] if c else 0]*act if case["hold"] else list(g.integers(0, 4, act))
        for x, l in blank:
            de += [0]*l
            c += [x]*l
        v += [valid]*(len(de) - len(v))
    n = len(de)
    a = np.zeros((n, len(IN)), dtype=np.uint64)
    a[:, 0] = v
    a[:, 1] = de
    a[:, 2] = c
    a[:, 3:6] = g.integers(0, 256, (n, 3))
    a[:, 6:] = g.integers(0, 1024, (n, 3))
    return a


def model(a):
    """expected outputs without latency; NaN mask for syncs before the first blanking"""
    n = len(a)
    e = np.zeros((n, len(OUT)), dtype=np.int64)
    de = a[:, 1].astype(int)
    c = a[:, 2].astype(int)
    e[:, 0] = a[:, 0]
    e[:, 1] = de
    pol = None
    for t in range(n):
        if t and de[t - 1] and not de[t]:
            pol = c[t]
        e[t, 2:4] = (-1, -1) if pol is None else ((c[t] ^ pol) & 1, (c[t] ^ pol) >> 1)
    e[:, 4:7] = a[:, [5, 4, 3]]
    e[:, 7:10] = a[:, 6:9]
    return e


def fn(case):
    a = stimulus(case)
    n = len(a)
    s = dut(case["hdmi"])
    pad = 8
    ins = np.concatenate([a, np.repeat(a[-1:], pad, axis=0)])
    mask = np.full(n + pad, s.mask(["pix", "pix_o"]), dtype=np.uint32)
    r = s.run(n + pad, [
        dict(kind="play", dom="pix", p=IN, a=ins),
        dict(kind="rec", dom="pix", name="o", p=["o_" + x for x in OUT])], mask=mask)
    o = r.by["o"].log[:, 1:].astype(np.int64)
    e = model(a)
    best = None
    for lat in range(1, pad):
        got = o[lat:lat + n]
        bad = (got != e) & (e >= 0)
        w = np.flatnonzero(bad.any(axis=1))
        if not len(w):
            break
        if best is None or w[0] > best[0]:
            best = (int(w[0]), lat, int(np.flatnonzero(bad[w[0]])[0]))
    else:
        t, lat, col = best
        raise Violation("clock {}: {} is {:#x}, expected {:#x} (all outputs {} clocks after their inputs)".format(
            t, OUT[col], int(o[t + lat, col]), int(e[t, col]), lat))
    pols = {int(a[t, 2]) for t in range(1, n) if a[t - 1, 1] and not a[t, 1]}
    act = bool((e[:, 2:4] == 1).any())
    return Info(nontrivial=act and len(case["lines"]) > 1, evals=n, labels=["hdmi" if case["hdmi"] else "dvi"] + ["pol{}".format(p) for p in pols])


@st.composite
def line(draw):
    return [draw(st.integers(0, 12)), [list(x) for x in draw(st.lists(st.tuples(st.integers(0, 3), st.integers(1, 6)), min_size=0, max_size=5))],
            draw(st.sampled_from([1, 1, 1, 0]))]


@st.composite
def raster(draw):
    """a regular raster with chosen polarities"""
    idle = draw(st.integers(0, 3))
    h, v = draw(st.integers(1, 8)), draw(st.integers(1, 5))
    fp, hs, bp = draw(st.integers(1, 4)), draw(st.integers(1, 4)), draw(st.integers(1, 4))
    vb = draw(st.integers(0, 4))
    vs = draw(st.integers(0, vb))
    out = []
    for f in range(draw(st.integers(1, 3))):
        for y in range(v):
            out.append([h, [[idle, fp], [idle ^ 1, hs], [idle, bp]], 1])
        for y in range(vb):
            x = idle ^ (2 if y < vs else 0)
            out.append([0, [[x, h + fp], [x ^ 1, hs], [x, bp]], 1])
    return out


@st.composite
def cases(draw):
    l = draw(st.one_of(raster(), st.lists(line(), min_size=1, max_size=12)))
    l = [x for x in l if x[0] or x[1]] or [[1, [[0, 1]], 1]]
    return {"hdmi": draw(st.booleans()), "hold": draw(st.booleans()), "seed": draw(st.integers(0, 2**16)), "lines": l}


def subs(tier):
    return [Sub("lines", fn, strategy=cases(), quick=800, thorough=20000,
                rule="regular rasters of all polarities and irregular lines, both variants; non-trivial = several lines and some sync becomes active")]
