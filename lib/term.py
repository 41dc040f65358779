"""The terminal: simulator, bus master and rendering model."""
import os

import numpy as np

from lib.pbt import Violation, REPO
from lib.hw import sim
from vsim.sim import Design

COLS, ROWS = 80, 30
FONT = COLS*ROWS*2
SIZE = FONT + 4096
LINE, LINES = 800, 521
HS, HBP, HD = 96, 48, 640
VS, VBP, VD = 2, 29, 480
FRAME = LINE*LINES
X0, Y0 = HS + HBP, VS + VBP

PALETTE = np.array([
    0x000000, 0x0000aa, 0x00aa00, 0x00aaaa, 0xaa0000, 0xaa00aa, 0xaa5500, 0xaaaaaa,
    0x555555, 0x5555ff, 0x55ff55, 0x55ffff, 0xff5555, 0xff55ff, 0xffff55, 0xffffff])


class Pads:
    pass


def dut(pads=False, font="cp437.bin", screen="screen-init.bin"):
    from migen import Module, Signal, Cat

    def make():
        from litevideo.terminal.core import Terminal
        p = None
        if pads:
            p = Pads()
            p.red, p.green, p.blue, p.hsync, p.vsync = Signal(8), Signal(8), Signal(8), Signal(), Signal()
        m = Module()
        kw = {}
        if font != "cp437.bin":
            kw["font_filename"] = font
        if screen != "screen-init.bin":
            kw["screen_init_filename"] = screen
        m.submodules.t = t = Terminal(p, **kw)
        d = Design(m, ["sys", "vga"])
        req, cyc, stb = Signal(), Signal(), Signal()
        # cyc/stb: noise while no access is requested (never both)
        m.comb += [t.bus.cyc.eq(req | cyc), t.bus.stb.eq(req | (stb & ~cyc))]
        for n, s in (("req", req), ("cyc", cyc), ("stb", stb), ("ack", t.bus.ack), ("adr", t.bus.adr),
                     ("we", t.bus.we), ("dat_w", t.bus.dat_w), ("dat_r", t.bus.dat_r)):
            d.port(n, s)
        o = p if p is not None else t
        d.out("video", Cat(o.blue, o.green, o.red, o.hsync, o.vsync))
        return d
    return sim("term,{},{},{}".format(pads, font, screen), make)


def initial(name, size):
    if name == "":
        return np.zeros(size, dtype=int)
    with open(os.path.join(REPO, "litevideo", "terminal", name), "rb") as f:
        return np.array(list(f.read()), dtype=int)


def render(mem):
    """the 480x640 picture of a RAM"""
    y = np.arange(VD)[:, None]
    x = np.arange(HD)[None, :]
    cell = 2*((y//16)*COLS + x//8)
    ch, col = mem[cell], mem[cell + 1]
    bit = mem[FONT + ch*16 + y % 16] >> (7 - x % 8) & 1
    return np.where(bit, PALETTE[col & 15], PALETTE[col >> 4])


def frames(v):
    """first clocks of the complete frames, by falling vsync"""
    vs = v >> 25 & 1
    return (np.flatnonzero((vs[1:] == 0) & (vs[:-1] == 1)) + 1).tolist()


def check_timing(v, f):
    """v: samples; f: first clock of a frame that is complete"""
    w = v[f:f + FRAME + 1]
    hs, vs = w >> 24 & 1, w >> 25 & 1
    t = np.arange(FRAME)
    ehs = (t % LINE >= HS).astype(int)
    evs = (t//LINE >= VS).astype(int)
    if len(w) > FRAME and (vs[FRAME] or not vs[FRAME - 1]):
        e = np.flatnonzero((vs[1:] == 0) & (vs[:-1] == 1))
        raise Violation("a frame does not last {} lines of {} clocks: the next vertical sync comes {}".format(
            LINES, LINE, "after {} clocks".format(int(e[0]) + 1) if len(e) else "later"))
    bad = np.flatnonzero(vs[:FRAME] != evs)
    if len(bad):
        raise Violation("vsync is {} at clock {} of line {}".format(int(vs[bad[0]]), int(bad[0]) % LINE, int(bad[0])//LINE))
    bad = np.flatnonzero(hs[:FRAME] != ehs)
    if len(bad):
        raise Violation("hsync is {} at clock {} of line {}".format(int(hs[bad[0]]), int(bad[0]) % LINE, int(bad[0])//LINE))
    rgb = (w[:FRAME] & 0xffffff).reshape(LINES, LINE)
    out = rgb.copy()
    out[Y0:Y0 + VD, X0:X0 + HD] = 0
    if out.any():
        y, x = np.argwhere(out)[0]
        raise Violation("colour {:#08x} outside the picture (line {}, clock {})".format(int(out[y, x]), int(y), int(x)))
    return rgb[Y0:Y0 + VD, X0:X0 + HD]


def run(s, items, gaps, junk, noise, nvga, ps, pv, ph):
    T = nvga*pv
    bits = np.zeros(T, dtype=np.uint32)
    bits[::ps] |= s.mask(["sys"])
    bits[ph % pv::pv] |= s.mask(["vga"])
    ts = np.flatnonzero(bits)
    mask = bits[ts]
    b = [dict(kind="src", dom="sys", name="src", p=["req", "ack", "adr", "we", "dat_w"],
              a=np.asarray(items, dtype=np.uint64).reshape(-1, 3), gaps=gaps, junk=junk),
         dict(kind="play", dom="sys", p=["cyc", "stb"], a=np.asarray(noise, dtype=np.uint64).reshape(-1, 2), cyclic=True),
         dict(kind="rec", dom="sys", name="bus", p=["req", "ack", "dat_r"], cond="ack"),
         dict(kind="rec", dom="vga", name="v", p=["video"])]
    r = s.run(len(mask), b, mask=mask)
    return r, ts
