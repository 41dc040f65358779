"""C34: an output connected to an input."""
import numpy as np
from hypothesis import strategies as st

from lib.pbt import Sub, Info, Violation, rng
from lib import several
from lib.several import sim
from lib.csr import WithBank, Play
from vsim.sim import Design
from checks import c14, c15, c25, c29
from checks.c11 import PAR
from checks.c12 import setpar, nwords, DW

PID = "C34"
ASSUMPTIONS = ["vendor primitives are models, as for the output (C15) and the input (C29); both memories keep up",
               "horizontal blankings are at least 24 clocks, with their sync inside; syncs are inactive during the picture",
               "software hands slots over after two whole frames, in the middle of a frame; a new buffer shows once the parameters queued and the words prefetched before are used up"]
MEM = 8192


def out(fam, mode, inv, depth):
    def make():
        from litedram.common import LiteDRAMNativePort
        from litevideo.output import VideoOut
        port = LiteDRAMNativePort("read", 24, DW[mode], several.cd("pix"))
        pads = c15.Pads(inv)
        x = VideoOut({6: "xc6slx45", 7: "xc7a35t"}[fam], pads, port, mode=mode, fifo_depth=depth, external_clocking=several.external())
        m = WithBank(x)
        d = m.ports(Design(m, ["sys", "pix", "vbit"] + (["pix2x", "pix10x", "base50"] if fam == 6 else ["pix5x", "clk100"])))
        d.port("vsync", x.driver.sink.vsync)
        for i in range(3):
            d.port("p{}".format(i), getattr(pads, "data{}_p".format(i)))
        for n, q in (("cv", port.cmd.valid), ("cr", port.cmd.ready), ("cw", port.cmd.we), ("ca", port.cmd.addr),
                     ("rv", port.rdata.valid), ("rr", port.rdata.ready), ("rd", port.rdata.data)):
            d.port(n, q)
        d.late.append(c15.serial(fam))
        return d
    return sim(("loopout", fam, mode, inv, depth), make)


def picture(case, p, g):
    """(words of the buffer, lines of pixels)"""
    mode, w, h = case["omode"], p[0], p[4]
    if mode == "rgb":
        px = g.integers(0, 256, (h*w, 3))
        if g.random() < 0.3:
            px = (px >> 7)*255
        words = px[:, 0] | px[:, 1] << 8 | px[:, 2] << 16 | g.integers(0, 256, h*w) << 24
    else:
        words = g.integers(0, 65536, h*w)
        px = c14.colours(mode, words, p)
    return words.astype(np.uint64), px.reshape(h, w, 3).astype(np.uint64)


def fn(case):
    ofam, omode, oinv = case["ofam"], case["omode"], case["oinv"]
    dev, hd, imode, dw, iinv = case["dev"], case["hd"], case["imode"], case["dw"], case["iinv"]
    p = tuple(case["p"])
    g = rng("c34", case["seed"])
    a = out(ofam, omode, oinv, case["odepth"])
    n = nwords(p, omode)
    T = (p[3] + 1)*(p[7] + 1)
    mem = g.integers(0, 2**DW[omode], MEM, dtype=np.uint64)
    pics, bases = [], []
    for i in range(case["nbuf"]):
        w, px = picture(case, p, g)
        # anywhere, but not over each other
        room = MEM//case["nbuf"] - n
        b = i*(MEM//case["nbuf"]) + case["at"][i] % room
        mem[b:b + n] = w
        pics.append(px)
        bases.append(b)
    po = case["pso"]
    pl = Play(a.design.csr)
    pl.idle(4)
    setpar(pl, p, bases[0], n, omode, 0)
    pl.wr("initiator_enable", 1)
    sh = {16: 1, 32: 2}[DW[omode]]
    flips = []
    for i in range(1, case["nbuf"]):
        # software shows the next picture
        pl.idle(case["gap"][i]*T*10//po//100 + 1)
        flips.append(pl.now()*po)
        pl.wr("initiator_base", bases[i] << sh)
    LAG = 9 + (case["odepth"] + 24)//n
    steps = (case["frames"]*T + 400)*10
    mask = np.full(steps, a.mask(["vbit"]), dtype=np.uint32)
    mask[::po] |= a.mask(["sys"])
    mask[::10] |= a.mask(["pix"])
    if ofam == 6:
        mask[::5] |= a.mask(["pix2x"])
    k = np.arange(steps) % 10
    r = a.run(steps, pl.bfms("sys") + [
        dict(kind="rdmem", dom="pix", name="mem", p=["cv", "cr", "cw", "ca", "rv", "rr", "rd"], mem=mem[:, None], ready=[1], lat=case["lat"]),
        dict(kind="play", dom="vbit", p=["pixlevel"], a=((k >= 1) & (k <= 5)).astype(np.uint64)[:, None]),
        dict(kind="rec", dom="pix", name="v", p=["vsync"]),
        dict(kind="rec", dom="vbit", name="o", p=["p0", "p1", "p2"])], mask=mask)
    v = r.by["v"].log[:, 1].astype(np.int64)
    rise = (np.flatnonzero(np.diff(v) == 1) + 1)*10
    wires = r.by["o"].log[:, 1:].astype(np.uint64)
    what = "{} output of an xc{}, {} input of an xc{}, {}".format(omode, ofam, imode, dev, dict(zip(PAR, p)))
    if len(rise) < case["frames"] - 2:
        raise Violation("{} frames in {} frame times ({})".format(len(rise), case["frames"], what))
    # the cable: skews, and pairs swapped on the way to an input that inverts them
    steps -= 200
    w = np.zeros((steps, 3), dtype=np.uint64)
    for c in range(3):
        d = case["off"][c] + 10*case["skew"][c]
        x = wires[:, c] ^ np.uint64((oinv >> (c + 1) & 1) ^ (iinv >> c & 1))
        w[d:, c] = x[:steps - d]
    # the input
    s = c29.dut(dev, hd, imode, dw, iinv, 512)
    ps = case["ps"]
    kk = dw//c29.PX[imode]
    fs = p[0]*p[4]//kk
    al = {16: 1, 32: 2, 64: 3, 128: 4}[dw]
    pl = Play(s.design.csr)
    if hd:
        pl.wr("decode_terc4_dvimode", 1)
    pl.wr("dma_frame_size", fs << al)
    slots = [[x % (2**c29.AW - fs) for x in q] for q in case["addr"]]
    f = 2
    taken = []              # (frame captured, address)
    for i, q in enumerate(slots):
        if i and i == len(slots) - 1:
            f += case["late"]
        if f + 3 >= len(rise):
            break
        t = (int(rise[f]) + T*5)//ps
        pl.idle(max(0, t - pl.now()))
        for i in range(2):
            pl.wr("dma_slot{}_status".format(i), 0)
            pl.wr("dma_slot{}_address".format(i), q[i] << al)
        pl.wr("dma_slot0_status", 1)
        pl.wr("dma_slot1_status", 1)
        taken += [(f + 1, q[0]), (f + 2, q[1])]
        f += 3
    pl.idle(max(0, (int(rise[f]) + T*5)//ps - pl.now()) if f < len(rise) else 0)
    regs = ["resdetection_hres", "resdetection_vres", "chansync_channels_synced", "frame_overflow", "dma_slot0_status", "dma_slot1_status"]
    for q in regs:
        pl.rd(q)
    pl.idle(4)
    n2 = min(steps, pl.now()*ps + 10)
    mask = np.full(n2, s.mask(["vbit"]), dtype=np.uint32)
    mask[::ps] |= s.mask(["sys"])
    if dev == 6:
        mask[::5] |= s.mask(["pix2x"])
        mask[5*case["ph"]::10] |= s.mask(["pix", "pix_o"])
    else:
        mask[::8] |= s.mask(["pix1p25x"])
        mask[::10] |= s.mask(["pix", "pix_o"])
    r = s.run(n2, pl.bfms("sys") + [
        dict(kind="play", dom="vbit", p=["p0", "p1", "p2"], a=w[:n2]),
        dict(kind="wrmem", dom="sys", name="mem", p=["cv", "cr", "cw", "ca", "wv", "wr", "we"] + s["wd"], ready=[1], lat=case["wlat"])], mask=mask)
    res = dict((x, y) for x, t, y in pl.results(r))
    if not res["chansync_channels_synced"]:
        raise Violation("the channels are not aligned after {} frames ({})".format(len(rise), what))
    if (res["resdetection_hres"], res["resdetection_vres"]) != (p[0], p[4]):
        raise Violation("the picture is measured as {}x{} ({})".format(res["resdetection_hres"], res["resdetection_vres"], what))
    if res["frame_overflow"]:
        raise Violation("overflow reported with a memory that keeps up ({})".format(what))
    log = r.by["mem"].log
    e = [c25.pack(imode, dw, c25.encode(imode, px)) for px in pics]
    last = 0
    pos = 0
    for f, base in taken:
        rows = log[pos:pos + fs]
        pos += fs
        if len(rows) < fs:
            raise Violation("frame {} is captured up to word {} of {} only ({})".format(f, len(rows), fs, what))
        if (rows[:, 1].astype(np.int64) != base + np.arange(fs)).any():
            j = int(np.flatnonzero(rows[:, 1].astype(np.int64) != base + np.arange(fs))[0])
            raise Violation("frame {}, word {} of {}: written at {:#x}, expected {:#x} ({})".format(f, j, fs, int(rows[j, 1]), base + j, what))
        got = [sum(int(x) << 64*q for q, x in enumerate(row[4:4 + len(s["wd"])])) for row in rows]
        # a whole picture, not older than the one of the frame before
        known = [i for i in range(len(pics)) if i == 0 or flips[i - 1] < rise[f]]
        old = [i for i in known if i + 1 < len(pics) and flips[i] + LAG*T*10 < rise[f]]
        ok = [i for i in known if i not in old and i >= last]
        hit = [i for i in ok if got == e[i]]
        if not hit:
            diff = {i: next((j for j in range(fs) if got[j] != e[i][j]), None) for i in range(len(pics))}
            i = max(diff, key=lambda q: fs if diff[q] is None else diff[q])
            j = diff[i]
            if j is None:
                raise Violation("frame {} shows picture {}, {} ({})".format(
                    f, i, "which was replaced more than {} frames before".format(LAG) if i in old else "picture {} was shown before".format(last), what))
            m = kk - 1
            while got[j] >> c29.PX[imode]*m == e[i][j] >> c29.PX[imode]*m:
                m -= 1
            y, x = divmod(j*kk + kk - 1 - m, p[0])
            raise Violation("frame {} follows picture {} up to pixel {} of line {}: captured word {:#x}, expected {:#x} ({})".format(
                f, i, x, y, got[j], e[i][j], what))
        last = hit[-1] if len(hit) == 1 else max(last, hit[0])
    if pos != len(log):
        raise Violation("{} words are written besides the {} frames handed over ({})".format(len(log) - pos, len(taken), what))
    return Info(nontrivial=len(taken) >= 2 and fs >= 4, evals=len(taken)*fs + 4,
                labels=["xc{}>xc{}".format(ofam, dev), "{}>{}".format(omode, imode), "buffers{}".format(case["nbuf"])])


# (family, mode, inverted pairs, prefetch) and (device, HDMI framing, mode, memory width, inverted pairs)
OUTS = [(7, "rgb", 0, 64), (6, "ycbcr422", 2, 512), (7, "ycbcr422", 13, 64), (6, "rgb", 9, 512)]
INS = [(7, False, "rgb", 32, 0), (6, False, "ycbcr422", 16, 5), (7, True, "ycbcr422", 64, 2), (6, True, "rgb", 128, 7)]


@st.composite
def cases(draw, large=False, pairs=(OUTS, INS)):
    o, i = draw(st.sampled_from(pairs[0])), draw(st.sampled_from(pairs[1]))
    k = i[3]//c29.PX[i[2]]
    w = max(16, 2*k)//k*k + k*draw(st.integers(0, 24//k)) + (0 if k > 1 else 2*draw(st.integers(0, 6)))
    w += w & 1
    h = draw(st.integers(2, 7))
    if large:
        # up to 2600 pixels, wide or tall
        if draw(st.booleans()):
            w = draw(st.integers(50//max(k, 2), 1300//max(k, 2)))*max(k, 2)
            h = draw(st.integers(2, 2600//w))
        else:
            h = draw(st.integers(20, 2600//w))
    fp, hsw, bp = draw(st.integers(1, 10)), draw(st.integers(1, 10)), draw(st.integers(1, 10))
    hb = max(24, fp + hsw + bp)
    vfp, vsw, vbp = draw(st.integers(0, 2)), draw(st.integers(1, 3)), draw(st.integers(1, 3))
    # at least 300 clocks a frame
    need = -(-300//(w + hb)) - h - vfp - vsw
    vbp = max(vbp, need)
    p = [w, w + fp, w + fp + hsw, w + hb - 1, h, h + vfp, h + vfp + vsw, h + vfp + vsw + vbp - 1]
    nb = draw(st.integers(1, 3))
    nl = draw(st.integers(1, 3))
    late = draw(st.sampled_from([0, 0, 0, 10, 18])) if nb > 1 and nl > 1 else 0
    ro = st.lists(st.integers(0, 2**c29.AW - 1), min_size=2, max_size=2)
    return {"ofam": o[0], "omode": o[1], "oinv": o[2], "odepth": o[3], "dev": i[0], "hd": i[1], "imode": i[2], "dw": i[3], "iinv": i[4], "p": p,
            "nbuf": nb, "at": draw(st.lists(st.integers(0, 4000), min_size=nb, max_size=nb)),
            "gap": draw(st.lists(st.integers(0, 400), min_size=nb, max_size=nb)), "frames": 5 + 3*nl + late, "late": late,
            "off": draw(st.lists(st.integers(0, 9), min_size=3, max_size=3)), "skew": draw(st.lists(st.integers(0, 6), min_size=3, max_size=3)),
            "pso": draw(st.integers(5, 25)), "ps": draw(st.integers(5, 12)), "ph": draw(st.integers(0, 1)), "lat": draw(st.lists(st.integers(1, 8), min_size=1, max_size=4)),
            "wlat": draw(st.lists(st.integers(1, 8), min_size=1, max_size=4)), "addr": [draw(ro) for _ in range(nl)], "seed": draw(st.integers(0, 2**16))}


def subs(tier):
    return [Sub("large", fn, strategy=cases(True), quick=10, thorough=300,
                rule="as loop, with pictures of up to 2600 pixels, up to 1300 wide and 160 high; non-trivial = two captured frames of at least four words"),
            Sub("loop", fn, strategy=cases(), quick=150, thorough=4000,
                rule="generated pictures in memory, buffer changes, rasters, modes and families of both sides, inverted pairs, bit offsets and skews: the bits of the "
                     "output's pads drive the input's, and its memory is compared with the pictures; non-trivial = two captured frames of at least four words")]
