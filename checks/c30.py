"""C30: every supported configuration elaborates, with its registers."""
import itertools
import os
import tempfile

import numpy as np
from hypothesis import strategies as st
from migen import Signal, Module, ClockDomain, ClockDomainsRenamer

from lib.pbt import Sub, Info, Violation, rng
from lib.hw import sim
from lib.csr import WithBank, Play
from vsim.sim import Design, HarnessError

PID = "C30"
ASSUMPTIONS = ["the platform provides the clock domains sys, base50, clk100 and (terminal) vga, and the vendor's implementation of reset synchronisers"]


class Pads:
    pass


def in_pads(c):
    p = Pads()
    inv = c["inv"]
    for i, n in enumerate(["clk", "data0", "data1", "data2"]):
        for x in "pn":
            setattr(p, "{}_{}".format(n, x), Signal(name="{}_{}".format(n, x)))
        if inv >> i & 1:
            getattr(p, n + "_p").inverted = True
    if c["edid"]:
        p.scl, p.sda = Signal(name="scl"), Signal(name="sda")
        if c["edid"] & 2:
            p.sda_pu, p.sda_pd = Signal(name="sda_pu"), Signal(name="sda_pd")
        if c["edid"] & 4:
            p.scl.inverted = True
            p.sda.inverted = True
    if c["hpd"] & 1:
        p.hpd_notif = Signal(name="hpd_notif")
        if c["hpd"] & 4:
            p.hpd_notif.inverted = True
    if c["hpd"] & 2:
        p.hpd_en = Signal(name="hpd_en")
    return p


def out_pads(c):
    p = Pads()
    if c["pads"] == "hdmi":
        for i, n in enumerate(["clk", "data0", "data1", "data2"]):
            for x in "pn":
                setattr(p, "{}_{}".format(n, x), Signal(name="{}_{}".format(n, x)))
            if c["inv"] >> i & 1:
                getattr(p, n + "_p").inverted = True
    else:
        p.hsync_n, p.vsync_n, p.psave_n = Signal(name="hsync_n"), Signal(name="vsync_n"), Signal(name="psave_n")
        w = {"vga4": 4, "vga8": 8, "vgadiff": 6}[c["pads"]]
        p.r, p.g, p.b = Signal(w, name="r"), Signal(w, name="g"), Signal(w, name="b")
        if c["pads"] == "vgadiff":
            p.clk_p, p.clk_n = Signal(name="clk_p"), Signal(name="clk_n")
        else:
            p.clk = Signal(name="clk")
    return p


class Share:
    pass


def build(c):
    """(module, clock domains of the platform, registers software needs)"""
    from litedram.common import LiteDRAMNativePort
    if c["kind"] == "in":
        from litevideo.input import HDMIIn
        port = LiteDRAMNativePort("write", 24, c["dw"]) if c["dw"] else None
        kw = {}
        if c["clkin"]:
            kw["clkin_freq"] = c["clkin"]
        m = HDMIIn(in_pads(c), port, n_dma_slots=c["slots"], fifo_depth=c["depth"], device=c["dev"], split_mmcm=c["split"],
                   mode=c["mode"], hdmi=c["hdmi"], **kw)
        st = "pll" if c["dev"] == "xc6" else "mmcm"
        need = ["clocking_{}_{}".format(st, n) for n in ("reset", "adr", "dat_r", "dat_w", "read", "write", "drdy")] + ["clocking_locked"]
        if c["split"]:
            need += ["clocking_mmcm_write_o", "clocking_mmcm_read_o", "clocking_mmcm_dat_o_r", "clocking_mmcm_drdy_o"]
        for i in range(3):
            need += ["data{}_cap_{}".format(i, n) for n in ("dly_ctl", "phase", "phase_reset")]
            need += ["data{}_{}".format(i, n) for n in ("charsync_char_synced", "charsync_ctl_pos", "wer_update", "wer_value")]
        need += ["chansync_channels_synced", "resdetection_hres", "resdetection_vres"]
        if c["edid"]:
            need += ["edid_hpd_notif", "edid_hpd_en"]
        if c["hdmi"]:
            need += ["decode_terc4_dvimode"]
        if c["dw"]:
            need += ["frame_overflow", "dma_frame_size", "dma_ev_status", "dma_ev_pending", "dma_ev_enable"]
            for i in range(c["slots"]):
                need += ["dma_slot{}_status".format(i), "dma_slot{}_address".format(i)]
        return m, ["sys"], need
    if c["kind"] == "out":
        from litevideo.output import VideoOut
        port = LiteDRAMNativePort("read", 24, {"rgb": 32, "raw": 32, "ycbcr422": 16}[c["mode"]], "pix")
        ext = None
        if c["ext"]:
            ext = Share()
            for n in ("pll0_pix10x", "pll1_pix2x", "pll2_pix", "pll_locked"):
                setattr(ext, n, Signal(name=n))
        m = VideoOut(c["dev"], out_pads(c), port, mode=c["mode"], fifo_depth=c["depth"], external_clocking=ext)
        need = ["core_initiator_" + n for n in ("enable", "hres", "hsync_start", "hsync_end", "hscan", "vres", "vsync_start", "vsync_end",
                                                "vscan", "base", "length")]
        need += ["core_underflow_" + n for n in ("enable", "update", "counter")]
        if not c["ext"]:
            st = "pll" if c["dev"][:3] == "xc6" else "mmcm"
            need += ["driver_clocking_{}_{}".format(st, n) for n in ("reset", "adr", "dat_r", "dat_w", "read", "write", "drdy")]
            if st == "pll":
                need += ["driver_clocking_" + n for n in ("cmd_data", "send_cmd_data", "send_go", "status")]
        return m, ["sys", "base50", "clk100"], need
    if c["kind"] == "core":
        from litex.soc.interconnect import stream
        from litevideo.output.core import VideoOutCore
        from litevideo.output.common import frame_timing_layout
        port = LiteDRAMNativePort("read", 24, {"rgb": 32, "raw": 32, "ycbcr422": 16}[c["mode"]], "pix")
        m = VideoOutCore(port, c["mode"], c["depth"], stream.Endpoint(frame_timing_layout) if c["genlock"] else None)
        return m, ["sys", "pix"], ["initiator_enable", "initiator_hres", "initiator_length", "underflow_counter", "dma_delay_base"]
    from litevideo.terminal.core import Terminal
    if c["pads"]:
        p = Pads()
        p.red, p.green, p.blue = Signal(8, name="red"), Signal(8, name="green"), Signal(8, name="blue")
        p.hsync, p.vsync = Signal(name="hsync"), Signal(name="vsync")
        m = Terminal(p, **c["kw"])
    else:
        m = Terminal(**c["kw"])
    return m, ["sys", "vga"], []


def elaborate(c):
    """Verilog of the configuration; everything that raises is a violation"""
    from migen.fhdl import verilog
    from migen.build.xilinx import common
    ov = dict(common.xilinx_special_overrides)
    ov.update(common.xilinx_s6_special_overrides if "6" in str(c.get("dev")) else common.xilinx_s7_special_overrides)
    m, doms, need = build(c)

    class Top(Module):
        def __init__(self):
            for n in doms:
                setattr(self.clock_domains, "cd_" + n, ClockDomain(n))
            self.submodules.x = m
    csrs = m.get_csrs() if hasattr(m, "get_csrs") else []
    mems = m.get_memories() if hasattr(m, "get_memories") else []
    t = Top()
    v = str(verilog.convert(t, set(), special_overrides=ov, create_clock_domains=False))
    return v, csrs, mems, need


def elab(c):
    try:
        v, csrs, mems, need = elaborate(c)
    except (Violation, HarnessError):
        raise
    except Exception as e:
        raise Violation("{} does not elaborate: {}: {}".format(c, type(e).__name__, str(e)[:300]))
    if "endmodule" not in v:
        raise Violation("{} gives no Verilog".format(c))
    names = [x.name.lstrip("_") for x in csrs]
    d = sorted({n for n in names if names.count(n) > 1})
    if d:
        raise Violation("{}: several registers are called {}".format(c, d[0]))
    have = {n.replace("__", "_") for n in names}
    for n in need:
        if n not in have:
            raise Violation("{} has no register {} (it has {})".format(c, n, sorted(have)))
    if c["kind"] == "in":
        # not one slot more than asked for: its registers and event would move the others
        n = c["slots"] if c["dw"] else 0
        for x in sorted(have):
            k = x.split("dma_slot", 1)[1].split("_", 1)[0] if "dma_slot" in x else ""
            if k.isdigit() and int(k) >= n:
                raise Violation("{} has a register {}".format(c, x))
    if c["kind"] == "out" and c["ext"]:
        # the clocks are those of the other output: nothing of its own to program
        for x in sorted(have):
            if x.startswith("driver_clocking"):
                raise Violation("{} with the clocks of another output has a register {}".format(c, x))
    if c["kind"] == "in" and c["edid"]:
        if not any(getattr(x[-1] if isinstance(x, tuple) else x, "depth", 0) == 256 for x in mems):
            raise Violation("{}: the EDID memory is not accessible".format(c))
    return Info(evals=1 + len(csrs), sample=c, labels=[c["kind"]])


def refused(c):
    from litedram.common import LiteDRAMNativePort
    what = c["what"]
    try:
        if what == "output mode":
            from litevideo.output import VideoOut
            VideoOut(c["dev"], out_pads(dict(pads="hdmi", inv=0)), LiteDRAMNativePort("read", 24, c["dw"], "pix"), mode=c["mode"])
        elif what == "core mode":
            from litevideo.output.core import VideoOutCore
            VideoOutCore(LiteDRAMNativePort("read", 24, c["dw"], "pix"), c["mode"])
        elif what == "raw on VGA":
            from litevideo.output import VideoOut
            VideoOut(c["dev"], out_pads(dict(pads=c["pads"])), LiteDRAMNativePort("read", 24, 32, "pix"), mode="raw")
        elif what == "EDID size":
            from litevideo.input.edid import EDID
            EDID(in_pads(dict(inv=0, edid=1, hpd=3)), [0]*c["n"])
        elif what == "split clocking":
            from litevideo.input.clocking import S6Clocking
            S6Clocking(in_pads(dict(inv=0, edid=0, hpd=0)), None, True)
        elif what == "input frequency":
            from litevideo.input.clocking import S7Clocking
            S7Clocking(in_pads(dict(inv=0, edid=0, hpd=0)), c["f"])
        elif what == "device":
            from litevideo.output.driver import Driver
            Driver(c["dev"], out_pads(dict(pads="hdmi", inv=0)), "rgb")
        elif what == "font size":
            from litevideo.terminal.core import Terminal
            with tempfile.NamedTemporaryFile() as f:
                f.write(bytes(c["n"]))
                f.flush()
                Terminal(**{c["arg"]: f.name})
    except Exception:
        return Info(sample=c, labels=[what])
    raise Violation("{} is accepted: {}".format(what, c))


# what differs between the designs is covered by elab; registers are read back on these
def regs(case):
    c = case["cfg"]

    def make():
        m, doms, need = build(c)
        w = WithBank(m, case["bw"])
        from litex.soc.interconnect.csr import CSRStorage
        w.storages = [x.name.lstrip("_") for x in m.get_csrs() if isinstance(x, CSRStorage)]
        d = w.ports(Design(w, doms))
        return d
    s = sim(("c30", repr(sorted(c.items())), case["bw"]), make)
    w = s.design.csr
    g = rng("c30", case["seed"])
    val = {n: 0 for n in w.storages}
    last = {}
    pl = Play(w)
    pl.idle(2)
    order = [w.storages[i] for i in g.permutation(len(w.storages))]
    exp = []
    for n in order:
        last[n] = int(g.integers(0, 2**min(62, w.map[n][1])))
        pl.wr(n, last[n])
        if g.random() < 0.3:
            k = order[int(g.integers(0, len(order)))]
            if k in last:
                pl.idle(2)
                pl.rd(k)
                exp.append((k, last[k]))
    pl.idle(2)
    for i in g.permutation(len(order)):
        pl.rd(order[i])
        exp.append((order[i], last[order[i]]))
    pl.idle(3)
    r = s.run(pl.now() + 1, pl.bfms("sys"), clock="sys")
    for (n, t, v), (k, e) in zip(pl.results(r), exp):
        if v != e:
            raise Violation("{}: register {} reads {:#x} after {:#x} was written".format(c, n, v, e))
    return Info(nontrivial=len(order) > 5, evals=len(exp), labels=[c["kind"]])


def configs():
    r = []
    base = dict(kind="in", dw=64, slots=2, depth=512, dev="xc7", mode="ycbcr422", hdmi=False, edid=1, hpd=3, inv=0, split=False, clkin=None)
    for dev, mode, hdmi, dw, slots in itertools.product(["xc6", "xc7"], ["rgb", "ycbcr422"], [False, True], [None, 16, 32, 64, 128, 256], [1, 2, 3, 4]):
        if dw == 16 and mode == "rgb" or dw is None and slots > 2:
            continue
        r.append(dict(base, dev=dev, mode=mode, hdmi=hdmi, dw=dw, slots=slots))
    for dev, edid, hpd, inv in itertools.product(["xc6", "xc7"], [0, 1, 3, 7], [0, 1, 2, 3, 5], [0, 15, 6]):
        r.append(dict(base, dev=dev, edid=edid, hpd=hpd, inv=inv))
    for split, f, hdmi, inv in itertools.product([False, True], [None, 74.25e6, 148.5e6], [False, True], [0, 1]):
        r.append(dict(base, split=split, clkin=f, hdmi=hdmi, inv=inv))
    for depth in (64, 1024, 2048):
        r.append(dict(base, depth=depth))
    for dev, mode, pads, inv in itertools.product(["xc6slx45", "xc7a35t", "xc7k325t", "xc6"], ["rgb", "ycbcr422", "raw"],
                                                  ["hdmi", "vga4", "vga8", "vgadiff"], [0, 15, 1, 4]):
        if pads != "hdmi" and (inv or mode == "raw"):
            continue
        for ext in ([False, True] if dev[:3] == "xc6" else [False]):
            r.append(dict(kind="out", dev=dev, mode=mode, pads=pads, inv=inv, ext=ext, depth=512))
    for mode, depth, g in itertools.product(["rgb", "ycbcr422", "raw"], [64, 512, 1024], [False, True]):
        r.append(dict(kind="core", mode=mode, depth=depth, genlock=g))
    for p, kw in itertools.product([False, True], [{}, {"font_filename": ""}, {"screen_init_filename": ""}, {"font_filename": "", "screen_init_filename": ""}]):
        r.append(dict(kind="term", pads=p, kw=kw))
    return r


REFUSED = ([dict(what="output mode", mode=m, dw=w, dev=d) for m, w, d in
            [("yuv", 32, "xc6slx45"), ("RGB", 32, "xc7a35t"), ("ycbcr444", 16, "xc7a35t"), ("", 32, "xc7a35t"),
             ("rgb", 16, "xc7a35t"), ("raw", 16, "xc7a35t"), ("rgb", 64, "xc7a35t"), ("ycbcr422", 32, "xc6slx45"), ("ycbcr422", 8, "xc6slx45"), ("raw", 128, "xc6slx45")]] +
           [dict(what="core mode", mode=m, dw=w) for m, w in [("yuv", 32), ("rgb", 16), ("rgb", 64), ("raw", 64), ("ycbcr422", 32), (None, 32)]] +
           [dict(what="raw on VGA", pads=p, dev=d) for p in ("vga4", "vga8", "vgadiff") for d in ("xc6slx45", "xc7a35t")] +
           [dict(what="EDID size", n=n) for n in (1, 64, 127, 129, 200, 255, 257)] +
           [dict(what="split clocking")] +
           [dict(what="input frequency", f=f) for f in (25e6, 100e6, 148.5, 297e6)] +
           [dict(what="device", dev=d) for d in ("xc5vlx", "ecp5", "xcku040", "")] +
           [dict(what="font size", arg=a, n=n) for a, n in (("font_filename", 4095), ("font_filename", 4800), ("font_filename", 1),
                                                            ("screen_init_filename", 4096), ("screen_init_filename", 4801))])


def pairwise(cfs):
    """a subset with every pair of option values that occurs in the list"""
    def pairs(c):
        it = sorted((k, repr(v)) for k, v in c.items())
        return {(a, b) for i, a in enumerate(it) for b in it[i + 1:]}
    left = set().union(*map(pairs, cfs))
    ps = [(c, pairs(c)) for c in cfs]
    out = []
    while left:
        c, p = max(ps, key=lambda x: len(x[1] & left))
        out.append(c)
        left -= p
    return out


@st.composite
def regcases(draw):
    pick = [c for c in configs() if c["kind"] != "term" and not (c["kind"] == "in" and c["dw"] == 256)]
    return {"cfg": draw(st.sampled_from(pick)), "bw": draw(st.sampled_from([8, 32])), "seed": draw(st.integers(0, 2**16))}


def subs(tier):
    cf = configs()
    if tier == "quick":
        cf = pairwise(cf)
    return [
        Sub("elaborate", elab, cases=cf, exhaustive=tier != "quick",
            rule="listed configurations (quick: a subset with every pair of option values), elaborated to Verilog with their register maps; all count"),
        Sub("refused", refused, cases=REFUSED, exhaustive=True, rule="unsupported options that must be refused; all count"),
        Sub("registers", regs, strategy=regcases(), quick=10, thorough=200,
            rule="sampled configurations behind a CSR bus: every storage register is written and read back, in generated orders; non-trivial = more than five registers"),
    ]
