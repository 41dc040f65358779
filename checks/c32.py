"""C32: scan-out locked to another video source."""
import numpy as np
from hypothesis import strategies as st

from lib.pbt import Sub, Info, Violation, rng
from lib.hw import sim
from lib.csr import WithBank, Play
from vsim.sim import Design, clocks
from checks import c12

PID = "C32"
ASSUMPTIONS = ["the source never waits (it is another video link), the display always accepts, video is enabled in the vertical blanking",
               "pixels are compared up to the first one for which the memory had no word in time"]
MAXLAT = 6


def dut(mode, depth):
    def make():
        from litedram.common import LiteDRAMNativePort
        from litex.soc.interconnect import stream
        from litevideo.output.common import frame_timing_layout
        from litevideo.output.core import VideoOutCore
        port = LiteDRAMNativePort("read", 24, c12.DW[mode], "vid")
        gl = stream.Endpoint(frame_timing_layout)
        core = VideoOutCore(port, mode, depth, genlock_stream=gl)
        m = WithBank(core)
        d = m.ports(Design(m, ["sys", "vid"]))
        s = core.source
        for n in ("valid", "ready", "de", "hsync", "vsync", "data"):
            d.port(n, getattr(s, n))
        for n in ("valid", "de", "hsync", "vsync"):
            d.port("g_" + n, getattr(gl, n))
        for n, x in (("cv", port.cmd.valid), ("cr", port.cmd.ready), ("cw", port.cmd.we), ("ca", port.cmd.addr),
                     ("rv", port.rdata.valid), ("rr", port.rdata.ready), ("rd", port.rdata.data)):
            d.port(n, x)
        return d
    return sim(("genlock", mode, depth), make)


def raster(case):
    """clocks of one frame from the vertical sync on: (de, hsync, vsync)"""
    w, h, hb, hs = case["w"], case["h"], case["hb"], case["hs"]
    L = w + hb
    vb = case["vb"]
    n = vb + h + case["vfp"]
    a = np.zeros((n*L, 3), dtype=np.uint64)
    for y in range(n):
        r = a[y*L:(y + 1)*L]
        r[1:1 + hs, 1] = 1
        if y < case["vs"]:
            r[:, 2] = 1
        if vb <= y < vb + h:
            r[hb:, 0] = 1
    return a


def fn(case):
    mode = case["mode"]
    s = dut(mode, case["depth"])
    ps, pv = case["ps"], case["pv"]
    fr = raster(case)
    F = len(fr)
    L = case["w"] + case["hb"]
    first = case["vb"]*L + case["hb"]              # first active pixel
    end = (case["vb"] + case["h"])*L               # after the last one
    N = case["w"]*case["h"]
    sh = {16: 1, 32: 2}[c12.DW[mode]]
    dly = case["delay"]
    top = 2**c12.AW - 600 - dly                   # the buffer and the delay stay in the memory
    first_base = case["bases"][0] % top
    nf = 0
    pl = Play(s.design.csr)

    def until(vid):
        k = -(-vid*pv//ps)
        if k > pl.now():
            pl.idle(k - pl.now())
    pl.wr("dma_delay_base", dly)
    pl.wr("initiator_base", (first_base << sh) | case["low"] % (1 << sh))
    pl.wr("initiator_length", (N + dly) << sh)
    pl.idle(4)
    # enabled in the blanking before frame `start`
    start = pl.now()*ps//pv//F + 2
    until((start - 1)*F + end + case["phase"] % (F - end))
    pl.wr("initiator_enable", 1)
    t_en = pl.now()*ps/pv
    swaps = []                                     # (vid clock of the write, base)
    f = start + 1
    for b, gap, ph in case["swaps"]:
        b %= top
        f += gap
        until(f*F + ph % F)
        pl.wr("initiator_base", b << sh)
        swaps.append((pl.now()*ps//pv, b))
    AHEAD = 8 + (case["depth"] + 24)//N + 1        # queued parameter sets, and words fetched ahead
    if case["off"]:
        f += AHEAD + 2
        until(f*F + case["phase"] % F)
        pl.wr("initiator_enable", 0)
        t_off = pl.now()*ps//pv
    f += AHEAD + 3
    until(f*F)
    nclk = pl.now()*ps//pv
    T = pl.now()*ps
    ts, doms = clocks(T, [("sys", ps, 0), ("vid", pv, case["ph"] % pv)])
    mask = np.array([s.mask(x) for x in doms], dtype=np.uint32)
    rows = np.tile(fr, (f + 2, 1))
    rows = np.hstack([np.ones((len(rows), 1), dtype=np.uint64), rows])
    r = s.run(len(mask), pl.bfms("sys") + [
        dict(kind="play", dom="vid", p=["g_valid", "g_de", "g_hsync", "g_vsync"], a=rows),
        dict(kind="play", dom="vid", name="rdy", p=["ready"], a=np.ones((1, 1), dtype=np.uint64)),
        dict(kind="rdmem", dom="vid", name="mem", p=["cv", "cr", "cw", "ca", "rv", "rr", "rd"],
             mem=c12.memory(mode)[:, None], ready=case["cready"], lat=case["lat"]),
        dict(kind="rec", dom="vid", name="o", p=["valid", "de", "hsync", "vsync", "data"])], mask=mask)
    if r.by["mem"].viol:
        raise Violation("a word read from memory is lost: the reader was not ready for it (step {})".format(r.by["mem"].violt))
    log = r.by["o"].log[:, 1:].astype(np.int64)
    src = rows[:len(log), 1:].astype(np.int64)
    # the timing is that of the source, from the enabling on
    a = int(t_en) + 2
    lat = best = None
    for l in range(MAXLAT):
        bad = np.flatnonzero((log[a + l:, 1:4] != src[a:len(log) - l]).any(axis=1))
        if not len(bad):
            lat = l
            break
        if best is None or bad[0] > best:
            best = int(bad[0])
    if lat is None:
        k = a + best
        raise Violation("clock {} of the source's frame: its (de, hsync, vsync) {} does not appear at the output".format(k % F, src[k].tolist()))
    # commands: the buffers, whole and in order
    cm = r.by["mem"].log
    if cm[:, 2].any():
        raise Violation("the scan-out writes to memory")
    cmds = cm[:, 1].astype(np.int64)
    bases = [first_base] + [b for t, b in swaps]
    bi = 0
    k = 0
    vclk = np.asarray(ts)[cm[:, 0].astype(np.int64)]//pv if len(cm) else cm[:, 0]
    for i in range(1, -(-len(cmds)//N)):
        n = int(vclk[i*N]//F) - int(t_en)//F
        if n < i:
            raise Violation("frame {} after enabling is read from memory although only {} vertical syncs of the source began".format(i, n))
    while k < len(cmds):
        m = min(N, len(cmds) - k)
        j = next((j for j in range(bi, len(bases)) if (cmds[k:k + m] == bases[j] + dly + np.arange(m)).all()), None)
        if j is None:
            d = np.flatnonzero(cmds[k:k + m] != bases[bi] + dly + np.arange(m))
            raise Violation("read number {} of a frame (buffer at {}, {} words, delay {}) is of address {}".format(
                int(d[0]), bases[bi], N + dly, dly, int(cmds[k + d[0]])))
        bi = j
        k += m
    # pixels
    mem = c12.memory(mode)
    pm = (1 << c12.BITS[mode]) - 1
    mem = (mem & np.uint64(pm)).astype(np.int64)
    easy = case["cready"] == [1] and len(set(case["lat"])) == 1 and case["depth"] >= 2*case["lat"][0] + 8
    bi = 0
    shown = 0
    under = False
    bad_from = len(log)
    lastb = None
    for f0 in range(start, len(log)//F - 1):
        o = f0*F + lat
        if o + F > len(log):
            break
        if case["off"] and o + F > t_off:
            break
        x = log[o:o + F]
        px = x[x[:, 1] == 1]
        if not px[:, 0].all():
            if easy:
                raise Violation("frame {}: pixel {} has no data although the memory answers every clock ({} clocks after each request)".format(
                    f0 - start, int(np.flatnonzero(px[:, 0] == 0)[0]), case["lat"][0]))
            under = True
            break
        j = next((j for j in range(bi, len(bases)) if (px[:, 4] == mem[(bases[j] + dly + np.arange(N)) % len(mem)]).all()), None)
        if j is None:
            e = mem[(bases[bi] + dly + np.arange(N)) % len(mem)]
            d = int(np.flatnonzero(px[:, 4] != e)[0])
            w = np.flatnonzero(mem == px[d, 4]).tolist()[:3]
            raise Violation("frame {} after enabling: pixel {} shows {:#x} (the word at {}), but word {} of the buffer at {}, after the delay of {}, is {:#x}".format(
                f0 - start, d, int(px[d, 4]), w, d, bases[bi], dly, int(e[d])))
        if j and o < swaps[j - 1][0]:
            raise Violation("frame {} shows a buffer programmed later".format(f0 - start))
        # a swap takes effect within the queue (buffers may have been used before)
        last = max(q for q in range(j, len(bases)) if (q == j or o >= swaps[q - 1][0]) and (bases[q] - bases[j]) % len(mem) == 0)
        for q in range(last + 1, len(bases)):
            if o > swaps[q - 1][0] + AHEAD*F:
                raise Violation("frame {} still shows the buffer replaced {} frames before".format(f0 - start, (o - swaps[q - 1][0])//F))
        bi = j
        shown += 1
    if case["off"] and not under:
        # nothing is read any more
        lim = t_off + AHEAD*F
        ct = cm[:, 0].astype(np.int64)
        tv = np.array(ts)[ct]//pv if len(ct) else ct
        if len(tv) and tv[-1] > lim:
            raise Violation("memory is still read {} frames after video was disabled".format((int(tv[-1]) - t_off)//F))
    return Info(nontrivial=shown >= 3, evals=shown*N + 1,
                labels=[mode, "shown{}".format(min(9, shown)), "swaps{}".format(len(swaps)), "delay" if dly else "nodelay", "ran dry" if under else "kept up"])


@st.composite
def cases(draw):
    w = draw(st.integers(1, 16))
    hb = draw(st.integers(3, 10))
    easy = draw(st.integers(0, 3)) > 0
    lat = draw(st.integers(1, 8))
    L = w + hb
    vb = max(2, -(-60//L)) + draw(st.integers(0, 2))
    return {"mode": draw(st.sampled_from(["rgb", "ycbcr422"])), "depth": draw(st.sampled_from([32, 64])) if easy else draw(st.sampled_from([4, 8, 64])),
            "w": w, "h": draw(st.integers(1, 8)), "hb": hb, "hs": draw(st.integers(1, hb - 2)), "vb": vb, "vs": draw(st.integers(1, vb - 1)),
            "vfp": draw(st.integers(1, 3)), "ps": draw(st.integers(1, 5)), "pv": draw(st.integers(1, 5)), "ph": draw(st.integers(0, 4)),
            "delay": draw(st.one_of(st.just(0), st.integers(1, 40), st.integers(0, 2**23))), "low": draw(st.integers(0, 3)), "phase": draw(st.integers(0, 400)),
            "bases": [draw(c12.base)], "swaps": [list(x) for x in draw(st.lists(st.tuples(c12.base, st.integers(0, 6), st.integers(0, 999)), max_size=3))],
            "off": draw(st.booleans()), "cready": [1] if easy else draw(st.lists(st.integers(0, 1), max_size=5).map(lambda l: l + [1, 1])),
            "lat": [lat] if easy else draw(st.lists(st.integers(1, 12), min_size=1, max_size=4))}


def subs(tier):
    return [Sub("locked", fn, strategy=cases(), quick=250, thorough=6000,
                rule="generated source rasters, delays, buffers, swaps, memory timings and clock ratios; non-trivial = three whole frames were shown and compared")]
