"""C15: the HDMI output's serialisers."""
import numpy as np
from hypothesis import strategies as st
from migen import Signal, If, Case

from lib.pbt import Sub, Info, Violation, rng
from lib.hw import sim
from lib.csr import WithBank
from lib import tmds, xil
from vsim.sim import Design, HarnessError

PID = "C15"
ASSUMPTIONS = ["serialisers, output buffers and double-data-rate registers are models of the vendor primitives (D1 first; the last bits of a word "
               "come through the cascade); clocks of one PLL have aligned edges and a clock used as data is sampled just before its edge"]
MAXLAT = 200


class Pads:
    def __init__(self, inv):
        for i, n in enumerate(["clk", "data0", "data1", "data2"]):
            for x in "pn":
                s = Signal(name="{}_{}".format(n, x))
                setattr(self, "{}_{}".format(n, x), s)
            if inv >> i & 1:
                getattr(self, n + "_p").inverted = True


def _bits(inst, names):
    return [inst.i[n] if n in inst.i else Signal() for n in names]


def serial(fam):
    def late(L, d):
        div = "pix2x" if fam == 6 else "pix"
        n = 5 if fam == 6 else 10
        ph = Signal(4, reset=n - 1)      # 0 after an edge of the divided clock
        L.f.sync.setdefault("vbit", []).append(If(ph == n - 1, ph.eq(0)).Else(ph.eq(ph + 1)))
        level = Signal()
        d.port("pixlevel", level)
        for i in L.instances:
            for p in ("LOCKED", "LOCK", "SERDESSTROBE"):
                if p in i.o:
                    L.f.comb.append(i.o[p].eq(1))
            if i.of == "BUFG" and i.o_expr.get("O") is L.cds["pix"].clk:
                L.f.comb.append(i.o["O"].eq(level))
            elif i.of == "OBUFDS":
                xil.link(L, i, "O", i.i["I"])
                xil.link(L, i, "OB", ~i.i["I"])
            elif i.of == "ODDR2":
                xil.settings(i, DDR_ALIGNMENT="NONE")
                on = ~i.i["R"] & i.i["CE"]
                xil.link(L, i, "Q", (((i.i["C0"] & i.i["D0"]) | (~i.i["C0"] & i.i["D1"])) & on) | i.i["S"])
            elif i.of == "OSERDESE2":
                master = i.params.get("SERDES_MODE") == "MASTER"
                xil.settings(i, DATA_WIDTH=10, DATA_RATE_OQ="DDR")
                xil.clocked(L, i, CLK="pix5x", CLKDIV="pix")
                on = xil.running(i, [])
                ld = [Signal() for k in range(8)]
                ok = Signal()
                L.f.sync.setdefault(div, []).append(If(i.i["OCE"], *[q.eq(x) for q, x in zip(ld, _bits(i, ["D{}".format(k) for k in range(1, 9)]))]))
                if master:
                    c = {k: ok.eq(q) for k, q in enumerate(ld)}
                    c[8] = ok.eq(i.i["SHIFTIN1"])
                    c[9] = ok.eq(i.i["SHIFTIN2"])
                    L.f.comb.append(Case(ph, c))
                    if "OQ" in i.o:
                        L.f.comb.append(i.o["OQ"].eq(ok & on))
                else:
                    xil.link(L, i, "SHIFTOUT1", ld[2] & on)
                    xil.link(L, i, "SHIFTOUT2", ld[3] & on)
            elif i.of == "OSERDES2":
                master = i.params.get("SERDES_MODE") == "MASTER"
                xil.settings(i, DATA_WIDTH=5, DATA_RATE_OQ="SDR")
                xil.clocked(L, i, CLK0="pix10x", CLKDIV="pix2x")
                xil.tied(i, T1=0, TRAIN=0)
                on = xil.running(i, [])
                ld = [Signal() for k in range(4)]
                L.f.sync.setdefault(div, []).append(If(i.i["OCE"] & i.i["IOCE"], *[q.eq(x) for q, x in zip(ld, _bits(i, ["D{}".format(k) for k in range(1, 5)]))]))
                if master:
                    xil.link(L, i, "SHIFTOUT1", ld[0])
                    xil.link(L, i, "OQ", i.i["SHIFTIN3"] & on)
                else:
                    ok = Signal()
                    c = {k: ok.eq(q) for k, q in enumerate(ld)}
                    c[4] = ok.eq(i.i["SHIFTIN1"])
                    L.f.comb.append(Case(ph, c))
                    xil.link(L, i, "SHIFTOUT3", ok & on)
    return late


class Ext:
    """the clocking of another output, shared (Spartan-6)"""

    def __init__(self):
        self.pll0_pix10x, self.pll1_pix2x, self.pll2_pix, self.pll_locked = Signal(), Signal(), Signal(), Signal()


def dut(fam, mode, inv, ext):
    def make():
        from litevideo.output.driver import Driver
        pads = Pads(inv)
        x = Driver({6: "xc6slx45", 7: "xc7a35t"}[fam], pads, mode, Ext() if ext else None)
        m = WithBank(x)
        doms = ["sys", "pix", "vbit"] + (["pix2x", "pix10x", "base50"] if fam == 6 else ["pix5x", "clk100"])
        d = m.ports(Design(m, doms))
        for n in ["hsync", "vsync", "de"] + (["c0", "c1", "c2"] if mode == "raw" else ["r", "g", "b"]):
            # as from a register of the pixel clock
            q = Signal(len(getattr(x.sink, n)))
            m.sync.pix += getattr(x.sink, n).eq(q)
            d.port(n, q)
        for n in ["clk", "data0", "data1", "data2"]:
            for q in "pn":
                d.port("{}_{}".format(n, q), getattr(pads, "{}_{}".format(n, q)))
        d.late.append(serial(fam))
        return d
    return sim(("hdmiout", fam, mode, inv, ext), make)


def stimulus(case):
    g = rng("c15", case["seed"])
    mode = case["mode"]
    rows = []
    for n, de, hs, vs in case["segs"]:
        if mode == "raw":
            c = g.integers(0, 1024, (n, 3))
            t = np.stack([g.integers(0, 2, n)]*3, axis=1)
        else:
            c = g.integers(0, 256, (n, 3))
            if case["ctl"] and not de:
                t = np.stack([g.integers(0, 2, n), g.integers(0, 2, n), np.zeros(n, dtype=int)], axis=1)
            else:
                t = np.tile([hs, vs, de], (n, 1))
        rows.append(np.hstack([t, c]))
    return np.concatenate(rows).astype(np.int64)


def expected(case, rows):
    """three word sequences, channel 0 first"""
    if case["mode"] == "raw":
        return np.stack([rows[:, 3], rows[:, 4], rows[:, 5]])
    out = []
    for ch, col in ((0, 5), (1, 4), (2, 3)):          # blue, green, red
        out.append(tmds.encode([(int(r[col]), (int(r[0]) | int(r[1]) << 1) if ch == 0 else 0, int(r[2])) for r in rows]))
    return np.array(out)


def fn(case):
    fam, mode, inv, ext = case["fam"], case["mode"], case["inv"], case["ext"] and case["fam"] == 6
    s = dut(fam, mode, inv, ext)
    rows = stimulus(case)
    n = len(rows)
    steps = 10*(n + 4) + MAXLAT
    mask = np.full(steps, s.mask(["vbit"]), dtype=np.uint32)
    mask[::10] |= s.mask(["pix", "sys"])
    if fam == 6:
        mask[::5] |= s.mask(["pix2x"])
    k = np.arange(steps) % 10
    lv = ((k >= 1) & (k <= 5)).astype(np.uint64)
    a = np.concatenate([rows, rows[-1:]]).astype(np.uint64)
    names = ["clk_p", "data0_p", "data1_p", "data2_p", "clk_n", "data0_n", "data1_n", "data2_n"]
    r = s.run(steps, [
        dict(kind="play", dom="pix", p=["hsync", "vsync", "de"] + (["c0", "c1", "c2"] if mode == "raw" else ["r", "g", "b"]), a=a),
        dict(kind="play", dom="vbit", p=["pixlevel"], a=lv[:, None]),
        dict(kind="rec", dom="vbit", name="o", p=names)], mask=mask)
    log = r.by["o"].log[:, 1:].astype(np.int64)
    if (log[:, :4] == log[:, 4:]).any():
        t, c = np.argwhere(log[:, :4] == log[:, 4:])[0]
        raise Violation("{} and {} are both {}".format(names[c], names[c + 4], log[t, c]))
    pins = log[:, :4] ^ np.array([inv >> i & 1 for i in range(4)])
    w = expected(case, rows)
    e = ((w[:, :, None] >> np.arange(10)) & 1).reshape(3, -1)
    m = e.shape[1]
    best = None
    for lat in range(0, MAXLAT):
        bad = np.flatnonzero((pins[lat:lat + m, 1:].T != e).any(axis=0))
        if not len(bad):
            best = (lat, None)
            break
        if best is None or bad[0] > best[1]:
            best = (lat, int(bad[0]))
    if best[1] is not None:
        lat, b = best
        q = b//10
        got = [sum(int(pins[lat + 10*q + i, 1 + c]) << i for i in range(10)) if lat + 10*q + 10 <= len(pins) else -1 for c in range(3)]
        raise Violation("clock {}: (hsync, vsync, de, {}) = {} is sent as words {} on channels 0 to 2, expected {} (delay of {} bits; {})".format(
            q, "c0, c1, c2" if mode == "raw" else "r, g, b", rows[q].tolist(),
            ["{:010b}".format(x) for x in got], ["{:010b}".format(x) for x in w[:, q]], lat,
            "xc{}, inverted pads {:04b}".format(fam, inv)))
    # clock channel: high in one half of every pixel and low in the other
    ck = pins[20:20 + (len(pins) - 20)//10*10, 0].reshape(-1, 10)
    if (ck != ck[0]).any():
        raise Violation("the clock channel does not repeat every pixel: {} then {}".format(
            ck[0].tolist(), ck[np.flatnonzero((ck != ck[0]).any(axis=1))[0]].tolist()))
    x = ck[0]
    if int((x != np.roll(x, 1)).sum()) != 2 or x.sum() != 5:
        raise Violation("the clock channel sends {} in a pixel".format(x.tolist()))
    key = (fam, ext, "clk")
    _phase.setdefault(key, {})[inv & 1] = x.tolist()
    if len(_phase[key]) == 2 and _phase[key][0] != _phase[key][1]:
        raise Violation("an inverted clock pad is not complemented: {} and, normal, {} (after undoing the inversion)".format(_phase[key][1], _phase[key][0]))
    act = int(rows[:, 2].sum()) if mode != "raw" else n
    return Info(nontrivial=n >= 12 and act >= 4, evals=n*3, labels=["xc{}".format(fam), mode, "inv{}".format(bin(inv).count("1"))])


_phase = {}


@st.composite
def cases(draw):
    mode = draw(st.sampled_from(["rgb", "rgb", "raw", "ycbcr422"]))
    segs = draw(st.lists(st.tuples(st.integers(1, 24), st.integers(0, 1), st.integers(0, 1), st.integers(0, 1)), min_size=2, max_size=8))
    return {"fam": draw(st.sampled_from([6, 7])), "mode": mode, "inv": draw(st.sampled_from([0, 1, 2, 4, 8, 5, 10, 14, 15])),
            "ext": draw(st.booleans()), "segs": [list(x) for x in segs], "ctl": draw(st.booleans()), "seed": draw(st.integers(0, 2**16))}


def subs(tier):
    return [Sub("serial", fn, strategy=cases(), quick=300, thorough=10000,
                rule="generated colours, syncs and raw words into the driver; the pad bits are compared with the expected words, all channels with one "
                     "common delay; non-trivial = twelve clocks and four active pixels")]
