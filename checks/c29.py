"""C29: from the wires of an HDMI cable to the memory."""
import numpy as np
from hypothesis import strategies as st
from migen import Signal

from lib.pbt import Sub, Info, Violation, rng
from lib.several import sim
from lib.csr import WithBank, Play
from lib import hdmi, xil
from vsim.sim import Design, clocks
from checks import c25

PID = "C29"
ASSUMPTIONS = ["buffers, delay elements and deserialisers are models of the vendor primitives, sampling in the middle of a bit",
               "control periods are at least 12 words, skews less than the 8 words of the alignment buffers",
               "software hands over the slots after two whole frames were received, in the middle of a picture"]
AW = 14
PX = {"rgb": 32, "ycbcr422": 16}


class Pads:
    def __init__(self, inv):
        for i, n in enumerate(["data0", "data1", "data2", "clk"]):
            for x in "pn":
                setattr(self, "{}_{}".format(n, x), Signal(name="{}_{}".format(n, x)))
            if inv >> i & 1:
                getattr(self, n + "_p").inverted = True


def dut(dev, hd, mode, dw, inv, depth=512):
    def make():
        from litedram.common import LiteDRAMNativePort
        from litevideo.input import HDMIIn
        pads = Pads(inv)
        port = LiteDRAMNativePort("write", AW, dw)
        x = HDMIIn(pads, port, device="xc{}".format(dev), mode=mode, hdmi=hd, fifo_depth=depth)
        m = WithBank(x)
        d = m.ports(Design(m, ["sys", "pix", "pix_o", "vbit"] + (["pix2x", "pix10x"] if dev == 6 else ["pix1p25x", "pix5x"])))
        for i in range(3):
            d.port("p{}".format(i), getattr(pads, "data{}_p".format(i)))
            m.comb += getattr(pads, "data{}_n".format(i)).eq(~getattr(pads, "data{}_p".format(i)))
        d.port("irq", x.ev.irq)
        for n, s in (("cv", port.cmd.valid), ("cr", port.cmd.ready), ("cw", port.cmd.we), ("ca", port.cmd.addr),
                     ("wv", port.wdata.valid), ("wr", port.wdata.ready), ("we", port.wdata.we)):
            d.port(n, s)
        d.out("wd", port.wdata.data)
        d.late.append(lambda L, d: xil.serial_receivers(L, d, dev))
        return d
    return sim(("hdmiin", dev, hd, mode, dw, inv, depth), make)


def line(s, case, g, px, vs, vs2):
    """front porch, sync, back porch, pixels; vertical sync changes with the horizontal one"""
    hp, fp, hsw, bp = case["hp"], case["fp"], case["hsw"], case["bp"]
    h0, h1 = hp, 1 - hp
    s.control(h0, vs, fp)
    if case["frame"] == "hdmi" and case["islands"]:
        # an island during the sync pulse
        k = int(g.integers(0, case["islands"] + 1))
        s.control(h1, vs2, max(4, hsw))
        if k:
            s.control(h1, vs2, 8, hdmi.DATA_PREAMBLE)
            s.island(h1, vs2, k, g)
            s.control(h1, vs2, 4)
    else:
        s.control(h1, vs2, hsw)
    s.control(h0, vs2, bp)
    if case["frame"] == "hdmi":
        s.control(h0, vs2, 8, hdmi.VIDEO_PREAMBLE if px is not None else 0)
    if px is not None:
        s.video(px, h0, vs2, case["frame"] == "hdmi")
    else:
        s.control(h0, vs2, case["w"] + (2 if case["frame"] == "hdmi" else 0))


def transmit(case):
    """words (n, 3), frames of pixels (lines), first word of each frame, of its middle line"""
    g = rng("c29", case["seed"])
    s = hdmi.Stream()
    vp = case["vp"]
    v0, v1 = vp, 1 - vp
    frames, starts, mids = [], [], []
    s.control(case["hp"], v0, case["idle"])
    for f in range(case["nframes"]):
        starts.append(len(s))
        vs = v0
        lines = []
        for k in range(case["vfp"] + case["vsw"] + case["vbp"] + case["h"]):
            new = v1 if case["vfp"] <= k < case["vfp"] + case["vsw"] else v0
            n = k - case["vfp"] - case["vsw"] - case["vbp"]
            px = None
            if n >= 0:
                px = g.integers(0, 256, (case["w"], 3))
                how = int(g.integers(0, 4))
                if how == 0:
                    px = np.array(hdmi.SPECIAL)[g.integers(0, len(hdmi.SPECIAL), (case["w"], 3))]
                elif how == 1:
                    px = (px >> 7)*255
                lines.append(px.astype(np.uint64))
                if n == case["h"]//2:
                    mids.append(len(s))
            line(s, case, g, px, vs, new)
            vs = new
        frames.append(lines)
    s.control(case["hp"], v0, case["fp"])
    s.control(case["hp"], v1, 40)
    return s.array()[:, :3], frames, starts, mids


def bits(case, words):
    n = len(words)*10
    out = np.zeros((n + 200, 3), dtype=np.uint64)
    for c in range(3):
        w = words[:, c]
        b = ((w[:, None] >> np.arange(10)) & 1).reshape(-1)
        k = case["off"][c] + 10*case["skew"][c]
        out[k:k + n, c] = b
        if case["inv"] >> c & 1:
            out[:, c] ^= np.uint64(1)
    return out


def fn(case):
    dev, hd, mode, dw = case["dev"], case["hd"], case["mode"], case["dw"]
    s = dut(dev, hd, mode, dw, case["inv"], case.get("depth", 512))
    words, frames, starts, mids = transmit(case)
    deaf = case.get("deaf", 0)
    end = len(words)
    if deaf:
        words = np.concatenate([words, words[-1:].repeat(400, axis=0)])
        for c in range(3):
            if deaf >> c & 1:
                words[case["every"] - 1::case["every"], c] = 0b0111110000
    wires = bits(case, words)
    lead = 0
    if case.get("before"):
        # another transmitter was connected before, and unplugged at any point
        c0 = dict(case, **case["before"])
        w0 = bits(c0, transmit(c0)[0])
        lead = len(w0)*case["cut"]//1000
        noise = rng("c29n", case["seed"]).integers(0, 2, (case["noise"], 3), dtype=np.uint64)
        if case["dead"]:
            noise[:] = noise[:1] if case["noise"] else 0
        wires = np.concatenate([w0[:lead], noise, wires])
        lead += case["noise"]
    k = dw//PX[mode]
    fs = case["w"]*case["h"]//k
    ps = case["ps"]
    al = {32: 2, 64: 3, 128: 4}[dw]
    pl = Play(s.design.csr)
    if hd:
        pl.wr("decode_terc4_dvimode", int(case["frame"] == "dvi"))
    pl.wr("dma_frame_size", fs << al)
    n_slots = 2
    load = []                 # (frame in which the slots are handed over, addresses)
    f = 0 if deaf else 2
    for a in case["addr"]:
        if f + n_slots >= case["nframes"] and not deaf:
            break
        t = (lead + (mids[f] + 25)*10)//ps
        if t > pl.now():
            pl.idle(t - pl.now())
        base = [x % (2**AW - fs) for x in a]
        for i in range(n_slots):
            pl.wr("dma_slot{}_status".format(i), 0)
            pl.wr("dma_slot{}_address".format(i), base[i] << al)
        # both at once: software hands them over, in order
        pl.wr("dma_slot0_status", 1)
        pl.wr("dma_slot1_status", 1)
        load.append((f, base))
        f += n_slots + 1
        if deaf:
            break
    # end of the transmission, in the vertical sync after the last frame
    t = (lead + (end + 60)*10)//ps + 40
    pl.idle(max(0, t - pl.now()))
    regs = ["resdetection_hres", "resdetection_vres", "chansync_channels_synced", "data0_charsync_char_synced",
            "data1_charsync_char_synced", "data2_charsync_char_synced", "frame_overflow", "clocking_locked", "dma_slot0_status", "dma_slot1_status"]
    # what the registers say is read before the wires go quiet
    at = pl.now()
    for q in regs:
        pl.rd(q)
    pl.idle(4)
    T = pl.now()*ps + 10
    w = np.zeros((max(T, len(wires)), 3), dtype=np.uint64)
    # the wires go on with control words
    tail = hdmi.Stream().control(case["hp"], 1 - case["vp"], 1).array()[0, :3]
    for c in range(3):
        b = np.array([int(tail[c]) >> i & 1 for i in range(10)])
        st_ = lead + case["off"][c] + 10*case["skew"][c]
        i = np.arange(len(w)) - st_
        w[:, c] = (0 if deaf >> c & 1 else b[i % 10]) ^ (case["inv"] >> c & 1)
        if lead:
            w[:st_, c] = wires[:st_, c]
        m = len(words)*10
        w[st_:st_ + m, c] = wires[st_:st_ + m, c]
    w = w[:T]
    mask = np.full(T, s.mask(["vbit"]), dtype=np.uint32)
    mask[::ps] |= s.mask(["sys"])
    if dev == 6:
        mask[::5] |= s.mask(["pix2x"])
        mask[5*case["ph"]::10] |= s.mask(["pix", "pix_o"])
    else:
        mask[::8] |= s.mask(["pix1p25x"])
        mask[::10] |= s.mask(["pix", "pix_o"])
    ready = case["ready"]
    if case.get("depth"):
        # the memory does not answer while the first frame handed over arrives
        x, y = (mids[2] + 60)*10//ps, (starts[4] if case["nframes"] > 4 else end)*10//ps
        ready = [1]*x + [0]*(y - x) + [1]*(T//ps + 2 - y)
    ul = np.zeros((T, 1), dtype=np.uint64)
    if lead and case["lost"] and case["noise"] >= 40:
        # the PLL loses its clock: its domains are reset
        ul[lead - case["noise"]:lead] = 1
    r = s.run(T, pl.bfms("sys") + [
        dict(kind="play", dom="vbit", p=["unlock"], a=ul),
        dict(kind="play", dom="vbit", p=["p0", "p1", "p2"], a=w),
        dict(kind="wrmem", dom="sys", name="mem", p=["cv", "cr", "cw", "ca", "wv", "wr", "we"] + s["wd"], ready=ready, lat=case["lat"])], mask=mask)
    res = dict((n, v) for n, t, v in pl.results(r))
    what = "{}x{}, {} framing".format(case["w"], case["h"], case["frame"])
    if deaf:
        for c in range(3):
            v = res["data{}_charsync_char_synced".format(c)]
            if v != 1 - (deaf >> c & 1):
                raise Violation("channel {} {} eight control tokens in a row, its char_synced reads {} ({})".format(
                    c, "never carries" if deaf >> c & 1 else "carries", v, what))
        if res["chansync_channels_synced"]:
            raise Violation("channels_synced reads 1 although channels {} have no character lock ({})".format([c for c in range(3) if deaf >> c & 1], what))
        if res["resdetection_hres"] or res["resdetection_vres"]:
            raise Violation("a resolution of {}x{} is reported although the channels were never aligned ({})".format(
                res["resdetection_hres"], res["resdetection_vres"], what))
        if len(r.by["mem"].log):
            raise Violation("{} words are written to memory although the channels were never aligned ({})".format(len(r.by["mem"].log), what))
        return Info(nontrivial=case["nframes"] >= 2, evals=6, labels=["deaf{}".format(deaf)])
    for q in ("clocking_locked", "data0_charsync_char_synced", "data1_charsync_char_synced", "data2_charsync_char_synced", "chansync_channels_synced"):
        if res[q] != 1:
            raise Violation("{} reads {} after {} frames ({})".format(q, res[q], case["nframes"], what))
    if (res["resdetection_hres"], res["resdetection_vres"]) != (case["w"], case["h"]):
        raise Violation("a picture of {} is measured as {}x{}".format(what, res["resdetection_hres"], res["resdetection_vres"]))
    if case.get("depth") and fs > case["depth"] + 40:
        if not res["frame_overflow"]:
            raise Violation("no overflow is reported although the memory stopped for {} words ({}, {} words of buffer)".format(fs, what, case["depth"]))
        return Info(nontrivial=True, evals=6, labels=["overflow"])
    if res["frame_overflow"]:
        raise Violation("overflow reported with a memory that keeps up ({})".format(what))
    m = r.by["mem"]
    if m.viol:
        raise Violation("a write command has no data when the memory wants it")
    log = m.log
    # what must be in memory: whole frames, in the order sent
    want = []
    for f, base in load:
        for i in range(n_slots):
            want.append((f + 1 + i, base[i]))
    pos = 0
    for f, a in want:
        e = c25.pack(mode, dw, c25.encode(mode, frames[f]))
        for j in range(fs):
            if pos >= len(log):
                raise Violation("frame {} ({}) is written up to word {} of {} only".format(f, what, j, fs))
            row = log[pos]
            pos += 1
            v = 0
            for q in range(len(s["wd"])):
                v |= int(row[4 + q]) << 64*q
            if int(row[1]) != a + j:
                raise Violation("frame {} ({}), word {} of {}: written at {:#x}, expected {:#x}".format(f, what, j, fs, int(row[1]), a + j))
            if v != e[j]:
                i = next(i for i in range(k) if (v ^ e[j]) >> PX[mode]*(k - 1 - i) & (2**PX[mode] - 1))
                sh = PX[mode]*(k - 1 - i)
                y, x = divmod(j*k + i, case["w"])
                raise Violation("frame {} ({}): pixel {} of line {} is stored as {:#x}, sent {:#x}".format(
                    f, what, x, y, v >> sh & (2**PX[mode] - 1), e[j] >> sh & (2**PX[mode] - 1)))
    if pos != len(log):
        raise Violation("{} words are written besides the {} frames handed over ({})".format(len(log) - pos, len(want), what))
    if want and (res["dma_slot0_status"], res["dma_slot1_status"]) != (2, 2):
        raise Violation("slots have status {} and {} after their frames".format(res["dma_slot0_status"], res["dma_slot1_status"]))
    return Info(nontrivial=len(want) >= 2 and fs >= 4, evals=len(want)*fs + 5,
                labels=["xc{}".format(dev), case["frame"], mode, "pol{}{}".format(case["hp"], case["vp"]), "skew{}".format(max(case["skew"]) - min(case["skew"]))])


# (device, HDMI framing, mode, memory width, inverted pairs)
CONFIGS = [(6, False, "rgb", 64, 0), (7, False, "ycbcr422", 64, 5), (6, True, "ycbcr422", 128, 2), (7, True, "rgb", 64, 0), (7, True, "ycbcr422", 32, 7),
           (6, True, "rgb", 128, 4)]
MORE = [(d, h, m, w, i) for d in (6, 7) for h in (False, True) for m, w in (("rgb", 64), ("rgb", 128), ("ycbcr422", 32), ("ycbcr422", 64), ("ycbcr422", 128))
        for i in (0, 1, 7)]


@st.composite
def cases(draw, configs):
    dev, hd, mode, dw, inv = draw(st.sampled_from(configs))
    frame = draw(st.sampled_from(["hdmi", "hdmi", "dvi"])) if hd else "dvi"
    k = dw//PX[mode]
    w = -(-16//k)*k + k*draw(st.integers(0, 6))
    nl = draw(st.integers(1, 2))
    ro = st.lists(st.integers(0, 2**AW - 1), min_size=2, max_size=2)
    return {"dev": dev, "hd": hd, "frame": frame, "mode": mode, "dw": dw, "w": w, "h": draw(st.integers(2, 8)),
            "hp": draw(st.integers(0, 1)), "vp": draw(st.integers(0, 1)), "fp": draw(st.integers(12, 20)), "hsw": draw(st.integers(8, 16)), "bp": draw(st.integers(12, 24)),
            "vfp": draw(st.integers(1, 2)), "vsw": draw(st.integers(1, 3)), "vbp": draw(st.integers(1, 3)), "islands": draw(st.integers(0, 2)),
            "idle": draw(st.integers(0, 60)), "nframes": 2 + 3*nl, "addr": [draw(ro) for i in range(nl)],
            "off": draw(st.lists(st.integers(0, 9), min_size=3, max_size=3)), "skew": draw(st.lists(st.integers(0, 6), min_size=3, max_size=3)),
            "inv": inv, "ps": draw(st.integers(5, 12)), "ph": draw(st.integers(0, 1)),
            "ready": draw(st.one_of(st.just([1]), st.lists(st.integers(0, 1), max_size=2).map(lambda l: l + [1, 1]))),
            "lat": draw(st.lists(st.integers(1, 8), min_size=1, max_size=4)), "seed": draw(st.integers(0, 2**16))}


@st.composite
def deaf(draw, configs):
    c = draw(cases(configs))
    c["deaf"] = draw(st.integers(1, 7))
    c["every"] = draw(st.integers(2, 8))
    c["nframes"] = draw(st.integers(2, 3))
    return c


@st.composite
def replugged(draw, configs):
    c = draw(cases(configs))
    o = draw(cases([(c["dev"], c["hd"], c["mode"], c["dw"], c["inv"])]))
    c["before"] = {k: o[k] for k in ("w", "h", "hp", "vp", "fp", "hsw", "bp", "vfp", "vsw", "vbp", "islands", "idle", "off", "skew", "seed")}
    c["before"]["nframes"] = draw(st.integers(1, 3))
    c.update(cut=draw(st.integers(100, 1000)), noise=draw(st.sampled_from([0, 1, 3, 10, 47, 299, 1003, 2000])), dead=draw(st.booleans()), lost=draw(st.booleans()))
    c["addr"] = c["addr"][:1]
    c["nframes"] = 5
    return c


@st.composite
def stalled(draw):
    """the buffer holds as many words as configured"""
    dev, hd, mode, dw, depth = draw(st.sampled_from([(7, False, "ycbcr422", 32, 64), (6, True, "rgb", 64, 256), (7, False, "rgb", 32, 1024)]))
    c = draw(cases([(dev, hd, mode, dw, 0)]))
    k = dw//PX[mode]
    fits = draw(st.booleans())
    n = draw(st.integers(depth//2, depth) if fits else st.integers(depth + 42, depth*3//2 + 42))
    h = draw(st.integers(max(2, -(-n*k//400)), max(4, n*k//60)))
    w = n//h*k
    if not fits:
        w += k
    c.update(depth=depth, w=max(w, -(-16//k)*k), h=h, nframes=5, addr=c["addr"][:1], ready=[1])
    return c


def subs(tier):
    return [Sub("stalled", fn, strategy=stalled(), quick=12, thorough=300,
                rule="frames of up to 1024 words while the memory does not answer at all: nothing is lost if they fit the configured buffer, an overflow is "
                     "reported if they do not; non-trivial = frames of four words"),
            Sub("unlocked", fn, strategy=deaf(MORE if tier == "thorough" else CONFIGS), quick=40, thorough=800,
                rule="as picture, with some channels disturbed so that they never carry eight control tokens in a row; the lock flags are compared; "
                     "non-trivial = two frames"),
            Sub("replugged", fn, strategy=replugged(MORE if tier == "thorough" else CONFIGS), quick=40, thorough=1500,
                rule="as picture, after another transmission with its own raster, offsets and skews that was cut off at any point, and noise, with or without loss of the PLL's lock; "
                     "non-trivial = two whole frames of at least four words"),
            Sub("picture", fn, strategy=cases(MORE if tier == "thorough" else CONFIGS), quick=200, thorough=4000,
                rule="a generated picture sequence, raster, framing, polarities, bit offsets, skews and inverted pairs, sent bit by bit; the memory is "
                     "compared with the pictures; non-trivial = two whole frames of at least four words")]
