"""C14: colour, data enable and syncs at the link driver belong to the same pixel."""
import numpy as np
from hypothesis import strategies as st

from lib.pbt import Sub, Info, Violation, rng
from lib.hw import sim
from lib.csr import WithBank, Play
from lib import xil
from vsim.sim import Design, HarnessError
from checks.c02 import model as ycbcr2rgb
from checks.c11 import frame, axis, PAR
from checks.c12 import setpar, nwords, DW

PID = "C14"
ASSUMPTIONS = ["the clock generator is locked; the memory answers fast enough in YCbCr mode (its pipeline has no flow control)",
               "4:2:2 pictures have an even width and at least four clocks of horizontal blanking"]
MEM = 4096
TIMING = ["de", "hsync", "vsync"]


class Pads:
    def __init__(self, vga, widths, clk):
        from migen import Signal
        if vga:
            self.hsync_n, self.vsync_n, self.psave_n = Signal(), Signal(), Signal()
            self.r, self.g, self.b = (Signal(w) for w in widths)
        if clk:
            self.clk_p, self.clk_n = Signal(name="clk_p"), Signal(name="clk_n")
        else:
            self.clk = Signal(name="clk_pad")
        if not vga:
            for i in range(3):
                for x in "pn":
                    setattr(self, "data{}_{}".format(i, x), Signal(name="data{}_{}".format(i, x)))


def locked(L, d):
    from migen import C
    for i in L.instances:
        for n in ("LOCKED", "LOCK"):
            if n in i.o:
                L.f.comb.append(i.o[n].eq(1))


def dut(fam, mode, vga, widths):
    def make():
        from litedram.common import LiteDRAMNativePort
        from litevideo.output import VideoOut
        port = LiteDRAMNativePort("read", 24, DW[mode], "pix")
        pads = Pads(vga, widths, True)
        x = VideoOut({6: "xc6slx45", 7: "xc7a35t"}[fam], pads, port, mode=mode, fifo_depth=64)
        m = WithBank(x)
        doms = ["sys", "pix"] + (["pix2x", "pix10x", "base50"] if fam == 6 else ["pix5x", "clk100"])
        d = m.ports(Design(m, doms))
        s = x.driver.sink
        for n in ["valid"] + TIMING + (["c0", "c1", "c2"] if mode == "raw" else ["r", "g", "b"]):
            d.port(n, getattr(s, n))
        if vga:
            for n in ("hsync_n", "vsync_n", "psave_n"):
                d.port("p_" + n, getattr(pads, n))
            for n in "rgb":
                d.port("p_" + n, getattr(pads, n))
        d.port("cv", port.cmd.valid)
        d.port("cr", port.cmd.ready)
        d.port("cw", port.cmd.we)
        d.port("ca", port.cmd.addr)
        d.port("rv", port.rdata.valid)
        d.port("rr", port.rdata.ready)
        d.port("rd", port.rdata.data)
        d.late.append(locked)
        return d
    return sim(("out", fam, mode, vga, tuple(widths)), make)


def colours(mode, w, p):
    """(r, g, b) or (c0, c1, c2) of the words of a frame"""
    if mode == "rgb":
        return np.stack([w & 255, (w >> 8) & 255, (w >> 16) & 255], axis=1)
    if mode == "raw":
        return np.stack([w & 1023, (w >> 10) & 1023, (w >> 20) & 1023], axis=1)
    y, c = w & 255, w >> 8
    cb, cr = np.repeat(c[0::2], 2), np.repeat(c[1::2], 2)
    return ycbcr2rgb(np.stack([y, cb, cr], axis=1).astype(np.uint64), 8, 8).astype(np.int64)


def fn(case):
    mode, vga = case["mode"], case["vga"]
    p = tuple(case["p"])
    s = dut(case["fam"], mode, vga, tuple(case["widths"]) if vga else ())
    g = rng("c14", case["seed"])
    mem = g.integers(0, 2**32 if DW[mode] == 32 else 65536, MEM)
    n = nwords(p, mode)
    T = (p[3] + 1)*(p[7] + 1)
    pl = Play(s.design.csr)
    pl.idle(4)
    setpar(pl, p, case["base"], n, mode, 0)
    pl.wr("initiator_enable", 1)
    start = pl.now()
    per = int(T*(1 if mode == "ycbcr422" else 1/(sum(case["cready"])/len(case["cready"])) + max(case["lat"]) + 2))
    clk = start*2 + per*case["frames"] + 80
    lat, cready = case["lat"], case["cready"]
    if mode == "ycbcr422":
        lat, cready = [min(lat)]*1, [1]
    bits = np.zeros(clk*2, dtype=np.uint32)
    bits[::case["ps"]] |= s.mask(["sys"])
    bits[::2] |= s.mask(["pix"])
    mask = bits[np.flatnonzero(bits)]
    cols = ["c0", "c1", "c2"] if mode == "raw" else ["r", "g", "b"]
    pads = ["p_hsync_n", "p_vsync_n", "p_psave_n", "p_r", "p_g", "p_b"] if vga else []
    r = s.run(len(mask), pl.bfms("sys") + [
        dict(kind="rdmem", dom="pix", name="mem", p=["cv", "cr", "cw", "ca", "rv", "rr", "rd"],
             mem=mem.astype(np.uint64)[:, None], ready=cready, lat=lat),
        dict(kind="rec", dom="pix", name="o", p=["valid"] + TIMING + cols + pads)], mask=mask)
    log = r.by["o"].log[:, 1:].astype(np.int64)
    if mode != "ycbcr422":
        log = log[log[:, 0] == 1]
    f = frame(p)[:, :3].astype(np.int64)
    w = mem[case["base"]:case["base"] + n]
    # the frame that starts first
    de = log[:, 1]
    k = None
    first = np.flatnonzero(de)
    if not len(first):
        raise Violation("no data enable at the driver: {}".format(dict(zip(PAR, p))))
    for c in range(int(first[0]), min(int(first[0]) + 2*T + 60, len(log) - T)):
        if (log[c:c + T, 1:4] == f).all():
            k = c
            break
    if k is None:
        x = int(first[0])
        m = min(T, len(log) - x)
        b = np.flatnonzero((log[x:x + m, 1:4] != f[:m]).any(axis=1))
        b = int(b[0]) if len(b) else 0
        raise Violation("no whole frame reaches the driver; clock {} of the first one has (de, hsync, vsync) = {}, expected {} with {}".format(
            b, log[x + b, 1:4].tolist(), f[b].tolist(), dict(zip(PAR, p))))
    e = np.zeros((T, 3), dtype=np.int64)
    if mode == "raw":
        # every clock carries the next word; the clock before the first pixel has word 0
        cm = np.ones(T, dtype=bool)
        e[:] = np.roll(colours(mode, w, p), -1, axis=0)
    else:
        cm = f[:, 0] == 1
        e[cm] = colours(mode, w, p)
    m = len(log) - k
    idx = np.arange(m) % T
    got = log[k:]
    bad = (got[:, 1:4] != f[idx]).any(axis=1) | (cm[idx] & (got[:, 4:7] != e[idx]).any(axis=1))
    bad = np.flatnonzero(bad)
    if len(bad):
        t = int(bad[0])
        i = t % T
        raise Violation("{} output, frame {}, line {}, clock {}: (de, hsync, vsync, {}) = {}, expected {} ({})".format(
            mode, t//T, i//(p[3] + 1), i % (p[3] + 1), ", ".join(cols), got[t, 1:7].tolist(),
            f[i].tolist() + (e[i].tolist() if cm[i] else ["any"]*3), dict(zip(PAR, p))))
    if vga:
        ex = [1 - got[:, 2], 1 - got[:, 3], np.ones(m, dtype=np.int64)]
        ex += [got[:, 4 + i] >> (8 - case["widths"][i]) for i in range(3)]
        ex = np.stack(ex, axis=1)
        bad = np.flatnonzero((got[:, 7:] != ex).any(axis=1))
        if len(bad):
            t = int(bad[0])
            raise Violation("VGA pads ({}) = {}, expected {} for (de, hsync, vsync, r, g, b) = {}".format(
                ", ".join(pads), got[t, 7:].tolist(), ex[t].tolist(), got[t, 1:7].tolist()))
    return Info(nontrivial=m >= T + p[3] and p[0]*p[4] >= 4, evals=m,
                labels=[mode, "vga" if vga else "hdmi", "xc{}".format(case["fam"])])


@st.composite
def cases(draw):
    mode = draw(st.sampled_from(["rgb", "ycbcr422", "raw"]))
    vga = draw(st.booleans()) and mode != "raw"
    h = draw(axis(14))
    if mode == "ycbcr422":
        res = h[0] + (h[0] & 1)
        h = (res, res + h[1] - h[0], res + h[2] - h[0], max(res + h[3] - h[0], res + 3))
    v = draw(axis(5))
    lat = draw(st.lists(st.integers(1, 6), min_size=1, max_size=5))
    return {"mode": mode, "vga": vga, "fam": draw(st.sampled_from([6, 7])),
            "widths": draw(st.sampled_from([[4, 4, 4], [5, 6, 5], [8, 8, 8], [3, 3, 2], [1, 1, 1]])) if vga else [],
            "p": list(h + v), "base": draw(st.integers(0, 1000)), "frames": draw(st.integers(2, 4)),
            "ps": draw(st.sampled_from([1, 2, 3])), "seed": draw(st.integers(0, 2**16)),
            "lat": lat, "cready": draw(st.one_of(st.just([1]), st.lists(st.integers(0, 1), min_size=1, max_size=6).map(lambda l: l + [1])))}


def subs(tier):
    return [Sub("align", fn, strategy=cases(), quick=250, thorough=6000,
                rule="generated rasters, picture contents, modes, families, pads and memory answers through the whole output; the clocks at the driver "
                     "(and VGA pads) are compared with a raster and colour model; non-trivial = more than a frame and at least four pixels")]
