"""C12: scan-out shows the words of the programmed buffer, in order."""
import numpy as np
from hypothesis import strategies as st

from lib.pbt import Sub, Info, Violation, rng
from lib.hw import sim
from lib.csr import WithBank, Play
from vsim.sim import Design, clocks, HarnessError
from checks.c11 import frame, axis, PAR

PID = "C12"
DW = {"rgb": 32, "ycbcr422": 16, "raw": 32}
BITS = {"rgb": 24, "ycbcr422": 16, "raw": 32}
MEM = 8192


def dut(mode, depth):
    def make():
        from litedram.common import LiteDRAMNativePort
        from litevideo.output.core import VideoOutCore
        port = LiteDRAMNativePort("read", 24, DW[mode], "vid")
        core = VideoOutCore(port, mode, depth)
        m = WithBank(core)
        d = m.ports(Design(m, ["sys", "vid"]))
        s = core.source
        for n in ("valid", "ready", "de", "hsync", "vsync", "data"):
            d.port(n, getattr(s, n))
        d.port("cv", port.cmd.valid)
        d.port("cr", port.cmd.ready)
        d.port("cw", port.cmd.we)
        d.port("ca", port.cmd.addr)
        d.port("rv", port.rdata.valid)
        d.port("rr", port.rdata.ready)
        d.port("rd", port.rdata.data)
        return d
    return sim(("core", mode, depth), make)


_mem = {}


def memory(mode):
    if mode not in _mem:
        # every address has its own contents
        g = rng("mem", mode)
        if mode == "ycbcr422":
            m = g.permutation(65536)[:MEM]
        else:
            m = g.permutation(1 << 20)[:MEM] * 16 + g.integers(0, 16, MEM)
            if mode == "raw":
                m = m | (g.integers(0, 256, MEM) << 24)
            else:
                m = m | (g.integers(0, 256, MEM) << 24)
        _mem[mode] = m.astype(np.uint64)
    return _mem[mode]


def setpar(pl, p, base, words, mode, low):
    sh = {16: 1, 32: 2}[DW[mode]]
    for n, v in zip(PAR, p):
        pl.wr("initiator_" + n, v)
    pl.wr("initiator_base", (base << sh) | (low & (2**sh - 1)))
    pl.wr("initiator_length", words << sh)


def nwords(p, mode):
    return (p[3] + 1)*(p[7] + 1) if mode == "raw" else p[0]*p[4]


def run(case, pl, ready, rasters=None):
    mode = case["mode"]
    s = dut(mode, case["depth"])
    ps, pv = case["ps"], case["pv"]
    T = max(pl.now()*ps, len(ready)*pv) + 20*(ps + pv)
    ts, doms = clocks(T, [("sys", ps, 0), ("vid", pv, case["ph"] % pv)])
    mask = np.array([s.mask(x) for x in doms], dtype=np.uint32)
    rd = ready + [0]*(T//pv + 2 - len(ready))
    r = s.run(len(mask), pl.bfms("sys") + [
        dict(kind="rdmem", dom="vid", name="mem", p=["cv", "cr", "cw", "ca", "rv", "rr", "rd"],
             mem=memory(mode)[:, None], ready=case["cready"], lat=case["lat"]),
        dict(kind="sink", dom="vid", name="o", p=["valid", "ready", "de", "hsync", "vsync", "data"], ready=rd),
        dict(kind="rec", dom="vid", name="v", p=["valid"])], mask=mask)
    if r.by["mem"].viol:
        raise Violation("a word read from memory is lost: the reader was not ready for it (step {})".format(r.by["mem"].violt))
    if r.by["mem"].log[:, 2].any():
        raise Violation("the scan-out writes to memory")
    return r


def session(rows, k, f):
    """frames f from row k on: (starts of the frames, next row, None | offset of the first mismatch)"""
    n = len(rows)
    starts = []
    while k < n and (rows[k, 0] or not starts):
        m = min(n - k, len(f))
        bad = np.flatnonzero((rows[k:k + m] != f[:m, :3]).any(axis=1))
        if len(bad):
            return starts, k, int(bad[0])
        starts.append(k)
        k += m
    return starts, k, None


def parse(case, log, rasters):
    """splits the accepted clocks into sessions and frames; returns frames as
    (first row, rows, session, whole)"""
    fr = [frame(p) for p in rasters]
    n = len(log)
    rows = log[:, 1:4]
    k = 0
    sess = 0
    ri = 0
    frames = []
    while k < n:
        # lead-in clock of a new session
        if rows[k].any():
            raise Violation("the clock before the first pixel of session {} has (de, hsync, vsync) = {}".format(sess, rows[k].tolist()))
        k += 1
        if k == n:
            break
        best = None
        for i in range(ri, len(rasters)):
            starts, e, bad = session(rows, k, fr[i])
            if bad is None:
                best = (i, starts, e)
                break
            if best is None or e + bad > best[2] + best[3]:
                best = (i, starts, e, bad)
        if len(best) == 4:
            i, starts, e, bad = best
            h = rasters[i][3] + 1
            raise Violation("session {}, frame {}, line {}, clock {}: (de, hsync, vsync) = {}, expected {} with {}".format(
                sess, len(starts), bad//h, bad % h, rows[e + bad].tolist(), fr[i][bad, :3].tolist(), dict(zip(PAR, rasters[i]))))
        ri, starts, e = best
        for j, x in enumerate(starts):
            m = min(e - x, len(fr[ri]))
            frames.append((x, m, sess, m == len(fr[ri])))
        k = e
        sess += 1
    return frames, sess


def words(case, log, f):
    """the words shown by a frame"""
    x, m, sess, whole = f
    if case["mode"] == "raw":
        # every clock of a session shows the next word, the lead-in clock included
        return log[x - 1:x - 1 + m, 4]
    return log[x:x + m, 4][log[x:x + m, 1] == 1]


def compat(log, f, fr):
    x, m, sess, whole = f
    return m <= len(fr) and (log[x:x + m, 1:4] == fr[:m, :3]).all()


def history(case):
    mode = case["mode"]
    rasters = [tuple(p) for p in case["rasters"]]
    s = dut(mode, case["depth"])
    pl = Play(s.design.csr)
    ps, pv = case["ps"], case["pv"]
    lat = case["lat"]
    duty = case["ready"].count(1)/len(case["ready"])
    cd = case["cready"].count(1)/len(case["cready"])
    bases = []       # (raster index, base words, sys clock of the write)
    sets = []
    cur = None
    maxclk = 0

    def vid(n):      # sys clocks for n vid clocks
        return n*pv//ps + 1
    for ph in case["phases"]:
        ri = ph["raster"] % len(rasters)
        p = rasters[ri]
        w = nwords(p, mode)
        T = (p[3] + 1)*(p[7] + 1)
        per = case.get("per") or int(T/duty + w*(1/cd + max(lat) + 2) + 40)      # worst clocks per frame
        if cur is None or ri != cur:
            # video is off: program everything
            setpar(pl, p, ph["base"], w, mode, ph["low"])
            bases.append((ri, ph["base"], pl.now()))
            cur = ri
        elif ph["rebase"]:
            sh = {16: 1, 32: 2}[DW[mode]]
            pl.wr("initiator_base", (ph["base"] << sh) | (ph["low"] & (2**sh - 1)))
            bases.append((ri, ph["base"], pl.now()))
        pl.wr("initiator_enable", 1)
        pl.idle(vid(int(per*ph["frames"])))
        for b, gap in ph["swaps"]:
            sh = {16: 1, 32: 2}[DW[mode]]
            pl.wr("initiator_base", b << sh)
            bases.append((ri, b, pl.now()))
            pl.idle(vid(int(per*gap)))
        if ph["off"] is not None:
            # up to five more frames are queued
            pl.wr("initiator_enable", 0)
            pl.idle(vid(int(T/duty*ph["off"])))
        else:
            pl.wr("initiator_enable", 0)
            pl.idle(vid(per*8))
            cur = None
    n = pl.now()*ps//pv
    reps = n//len(case["ready"]) + 1
    r = run(case, pl, case["ready"]*reps)
    log = r.by["o"].log
    mem = memory(mode)
    frames, sess = parse(case, log, [rasters[b[0]] for k, b in enumerate(bases) if not k or b[0] != bases[k - 1][0]])
    # memory reads: whole buffers, in order
    cmds = r.by["mem"].log[:, 1].astype(np.int64)
    ct = r.by["mem"].log[:, 0].astype(np.int64)
    # first[k]: the earliest buffer that read number k - 1 can belong to, when a buffer ends there
    n = len(cmds)
    first = {0: 0}
    far = (-1, 0, 0)
    for k in range(n):
        if k not in first:
            continue
        for j in range(first[k], len(bases)):
            ri, b, t = bases[j]
            w = nwords(rasters[ri], mode)
            m = min(w, n - k)
            d = np.flatnonzero(cmds[k:k + m] != b + np.arange(m))
            if not len(d):
                first[k + m] = min(first.get(k + m, j), j)
            elif k + d[0] > far[0]:
                far = (k + int(d[0]), k, j)
    if n not in first:
        x, k, j = far
        raise Violation("read number {} of a buffer of {} words at {} is of address {} (step {})".format(
            x - k, nwords(rasters[bases[j][0]], mode), bases[j][1], int(cmds[x]), int(ct[x])))
    # pixels
    bi = 0
    mask = np.uint64((1 << BITS[mode]) - 1)
    nf = 0
    frs = [frame(p) for p in rasters]
    for f in frames:
        got = words(case, log, f)
        okj = best = None
        for j in range(bi, len(bases)):
            if not compat(log, f, frs[bases[j][0]]):
                continue
            e = mem[(bases[j][1] + np.arange(len(got))) % MEM] & mask
            d = np.flatnonzero(e != got)
            if not len(d):
                okj = j
                break
            if best is None or d[0] > best[0]:
                best = (int(d[0]), j, int(e[d[0]]))
        if okj is None:
            if best is None:
                raise Violation("a frame is shown with a raster that was already replaced")
            d, j, e = best
            addr = np.flatnonzero((mem & mask) == got[d])
            raise Violation("frame {} (session {}): pixel {} shows {:#x} (the word at {}), but word {} of the buffer at {} is {:#x}".format(
                nf, f[2], d, int(got[d]), addr.tolist()[:4], d, bases[j][1], e))
        bi = okj
        nf += f[3]
    return Info(nontrivial=nf >= 2, evals=len(log), labels=[mode, "frames{}".format(min(nf, 8)), "sessions{}".format(sess),
                                                           "swaps" if any(p["swaps"] for p in case["phases"]) else "fixed"])


# hres, hsync start and end, hscan, and the same vertically
MODES = {"vga": (640, 656, 752, 799, 480, 490, 492, 524), "720p": (1280, 1390, 1430, 1649, 720, 725, 730, 749),
         "1080p": (1920, 2008, 2052, 2199, 1080, 1084, 1089, 1124)}


def scale(case):
    """real picture sizes, anywhere in memory"""
    m = MODES[case["size"]]
    return history({"mode": case["mode"], "per": (m[3] + 1)*(m[7] + 1), "depth": 512, "ps": 3, "pv": 2, "ph": 0, "cready": [1]*7 + [0], "lat": [9, 7, 12], "ready": [1],
                    "rasters": [list(m)],
                    "phases": [{"raster": 0, "base": case["base"], "low": 0, "rebase": False, "frames": case["frames"], "swaps": [], "off": 0}]})


def latest(case):
    """after a buffer swap, and some frames, only the new buffer is shown"""
    mode = case["mode"]
    p = tuple(case["rasters"][0])
    s = dut(mode, case["depth"])
    pl = Play(s.design.csr)
    ps, pv = case["ps"], case["pv"]
    w = nwords(p, mode)
    T = (p[3] + 1)*(p[7] + 1)
    setpar(pl, p, case["b0"], w, mode, 0)
    pl.wr("initiator_enable", 1)
    pl.idle((int(T*2.3) + case["gap"])*pv//ps)
    pl.wr("initiator_base", case["b1"] << {16: 1, 32: 2}[DW[mode]])
    swap = pl.now()*ps
    ahead = 9 + (case["depth"] + 20)//w       # parameters queued, and words already fetched
    pl.idle(T*(ahead + 3)*pv//ps + 200)
    n = pl.now()*ps//pv
    r = run(case, pl, [1]*n)
    frames, sess = parse(case, r.by["o"].log, [p])
    frames = [f for f in frames if f[3]]
    if len(frames) < ahead + 2:
        raise Violation("only {} frames in the time of {} although memory and display never stall".format(len(frames), ahead + 5))
    mask = np.uint64((1 << BITS[mode]) - 1)
    e = memory(mode)[(case["b1"] + np.arange(w)) % MEM] & mask
    got = words(case, r.by["o"].log, frames[-1])
    if len(got) != len(e) or (got != e).any():
        raise Violation("{} frames after the buffer was replaced, the old one is still shown".format(ahead))
    return Info(nontrivial=case["b0"] != case["b1"], evals=len(frames))


def underflow(case):
    """counter of the clocks without data, between two instants at which a pixel is on offer"""
    mode = case["mode"]
    p = tuple(case["rasters"][0])
    s = dut(mode, case["depth"])
    pl = Play(s.design.csr)
    ps, pv = case["ps"], case["pv"]
    w = nwords(p, mode)
    setpar(pl, p, case["base"], w, mode, 0)
    pl.wr("initiator_enable", 1)
    settle = (40 + max(case["lat"])*2)*(pv//ps + 1) + 60
    pl.idle(settle)
    t0 = pl.now()                                  # display stalled, pixel on offer
    if case["pre"]:
        pl.wr("underflow_enable", 1)
    pl.idle(20*(pv//ps + 1))
    t1 = pl.now()
    n = case["n"]
    pl.idle(n*pv//ps + 1)                          # display runs
    t2 = pl.now()
    pl.idle(settle)                                # display stalled again
    pl.wr("underflow_update", 1)
    pl.idle(20*(pv//ps + 1) + 10)
    pl.rd("underflow_counter").idle(3)
    pl.wr("underflow_enable", 0)
    pl.idle(20*(pv//ps + 1) + 10)
    pl.rd("underflow_counter").idle(3)             # not updated without a request
    pl.wr("underflow_update", 1)
    pl.idle(20*(pv//ps + 1) + 10)
    pl.rd("underflow_counter").idle(8)
    a = t1*ps//pv
    pat = [case["ready"][k % len(case["ready"])] for k in range(n)]
    ready = [0]*a + pat
    r = run(case, pl, ready)
    v = r.by["v"].log
    # clocks without data while counting: none outside the run
    va = v[:, 1]
    got = [x[2] for x in pl.results(r)]
    lo = (t0 - 2)*ps//pv
    hi = t2*ps//pv + settle*ps//pv
    if not va[lo - 4:a].all():
        return Info(nontrivial=False, evals=1, labels=["unsettled"])
    end = a + n + (settle - 20)*ps//pv
    if not va[end:end + 10].all():
        return Info(nontrivial=False, evals=1, labels=["unsettled"])
    exp = int((va[a:end] == 0).sum()) if case["pre"] else 0
    if got[0] != exp:
        raise Violation("{} display clocks had no data, the underflow counter says {}".format(exp, got[0]))
    if got[1] != got[0]:
        raise Violation("the underflow counter read changes from {} to {} without an update request".format(got[0], got[1]))
    if got[2] != 0:
        raise Violation("the underflow counter reads {} while counting is off".format(got[2]))
    return Info(nontrivial=exp > 0, evals=int(len(va)), labels=["underflows" if exp else "none"])


def whole(dev, mode, depth):
    """the whole output, down to the driver"""
    def make():
        from litedram.common import LiteDRAMNativePort
        from litevideo.output import VideoOut
        from checks.c14 import Pads, locked
        port = LiteDRAMNativePort("read", 24, DW[mode], "pix")
        x = VideoOut({6: "xc6slx45", 7: "xc7a35t"}[dev], Pads(False, (), True), port, mode=mode, fifo_depth=depth)
        m = WithBank(x)
        d = m.ports(Design(m, ["sys", "pix"] + (["pix2x", "pix10x", "base50"] if dev == 6 else ["pix5x", "clk100"])))
        s = x.driver.sink
        for n in ("valid", "de"):
            d.port(n, getattr(s, n))
        for n, v in (("cv", port.cmd.valid), ("cr", port.cmd.ready), ("cw", port.cmd.we), ("ca", port.cmd.addr),
                     ("rv", port.rdata.valid), ("rr", port.rdata.ready), ("rd", port.rdata.data)):
            d.port(n, v)
        d.late.append(locked)
        return d
    return sim(("whole", dev, mode, depth), make)


def bridge(case):
    """with the buffer full, the memory stops answering: how many more words are shown without a wait"""
    mode, depth, dev = case["mode"], case["depth"], case["dev"]
    dom = "pix" if dev else "vid"
    p = tuple(case["p"])
    s = whole(dev, mode, depth) if dev else dut(mode, depth)
    pre = "core_" if dev else ""
    bank = s.design.csr
    pl = Play(bank)
    sh = {16: 1, 32: 2}[DW[mode]]
    w = nwords(p, mode)
    names = bank.map
    find = lambda n: [k for k in names if k.endswith(n)][0]
    for n, v in zip(PAR, p):
        pl.wr(find("initiator_" + n), v)
    pl.wr(find("initiator_base"), case["base"] << sh)
    pl.wr(find("initiator_length"), w << sh)
    pl.wr(find("initiator_enable"), 1)
    start = pl.now()
    T = (p[3] + 1)*(p[7] + 1)
    gain = 1 - w/T if mode != "raw" and dev else 1          # words gained a clock while the buffer fills
    fill = start + int((depth + 60)/gain) + T + 200
    n = fill + int(depth*T/w) + 4*T + 200
    mask = np.full(n, s.mask(["sys", dom]), dtype=np.uint32)
    extra = [] if dev else [dict(kind="play", dom=dom, p=["ready"], a=(np.arange(n) >= fill).astype(np.uint64)[:, None])]
    r = s.run(len(mask), pl.bfms("sys") + extra + [
        dict(kind="rdmem", dom=dom, name="mem", p=["cv", "cr", "cw", "ca", "rv", "rr", "rd"],
             mem=memory(mode)[:, None], ready=[1]*fill + [0]*n, lat=[case["lat"]]),
        dict(kind="rec", dom=dom, name="o", p=["valid", "de"])], mask=mask)
    o = r.by["o"].log[:, 1:]
    c = r.by["mem"].log
    stop = fill
    wait = np.flatnonzero(o[stop:, 0] == 0)
    end = stop + int(wait[0]) if len(wait) else n
    shown = int((o[stop:end, 1] == 1).sum()) if mode != "raw" else end - stop
    if shown < depth - 4 - depth//16:
        raise Violation("the display waits {} words after the memory stopped answering, the buffer was made {} words deep".format(shown, depth))
    return Info(evals=n, labels=[mode, "xc{}".format(dev) if dev else "core", "depth{}".format(depth)])


@st.composite
def common(draw):
    return {"mode": draw(st.sampled_from(["rgb", "ycbcr422", "raw"])), "depth": draw(st.sampled_from([4, 8, 16, 64])),
            "ps": draw(st.integers(1, 7)), "pv": draw(st.integers(1, 7)), "ph": draw(st.integers(0, 6)),
            "cready": draw(st.lists(st.integers(0, 1), max_size=8).map(lambda l: l + [1])),
            "lat": draw(st.lists(st.integers(1, 18), min_size=1, max_size=7))}


raster = st.tuples(axis(9), axis(5)).map(lambda x: list(x[0] + x[1]))
AW = 24
base = st.one_of(st.integers(0, MEM - 600), st.integers(0, 2**AW - 600))


@st.composite
def histories(draw):
    c = draw(common())
    c["rasters"] = draw(st.lists(raster, min_size=1, max_size=2))
    if len(c["rasters"]) == 2 and c["rasters"][0][3] == c["rasters"][1][3]:
        c["rasters"][1][3] += 1          # so that a frame of one is never a part of the other
    c["ready"] = draw(st.one_of(st.just([1]), st.lists(st.integers(0, 1), max_size=6).map(lambda l: l + [1])))
    ph = []
    prev_off = True
    for i in range(draw(st.integers(1, 3))):
        off = draw(st.one_of(st.none(), st.integers(20, 70).map(lambda x: x/10), st.just(0), st.integers(40, 60).map(lambda x: x/10)))
        ph.append({"raster": draw(st.integers(0, 1)) if prev_off else ph[-1]["raster"], "base": draw(base), "low": draw(st.integers(0, 3)),
                   "rebase": draw(st.booleans()), "frames": draw(st.integers(0, 25))/10,
                   "swaps": [list(x) for x in draw(st.lists(st.tuples(base, st.integers(0, 25).map(lambda x: x/10)), max_size=3))],
                   "off": off})
        prev_off = off is None
    c["phases"] = ph
    return c


@st.composite
def latests(draw):
    c = draw(common())
    c.update(rasters=[draw(raster)], cready=[1], lat=[draw(st.integers(1, 3))], depth=16, b0=draw(base), b1=draw(base), gap=draw(st.integers(0, 60)))
    return c


@st.composite
def underflows(draw):
    c = draw(common())
    c.update(rasters=[draw(raster)], base=draw(base), n=draw(st.integers(1, 300)), pre=draw(st.sampled_from([1, 1, 1, 1, 0])),
             ready=draw(st.lists(st.integers(0, 1), max_size=5).map(lambda l: l + [1])))
    return c


def subs(tier):
    big = [{"mode": "rgb", "size": "1080p", "base": 0xd1f340, "frames": 1.1}, {"mode": "ycbcr422", "size": "vga", "base": 0x7ffff0, "frames": 2.3},
           {"mode": "raw", "size": "vga", "base": 0x30, "frames": 2.3}]
    if tier != "quick":
        big += [{"mode": m, "size": z, "base": b, "frames": 2.2} for m in DW for z in MODES for b in (0, 0xc00010)]
    return [
        Sub("scale", scale, cases=big, rule="pictures of 640x480 to 1920x1080 at high and low addresses"),
        Sub("bridge", bridge, cases=[
            {"mode": m, "depth": k, "dev": dev, "p": p, "base": 0x1230, "lat": l}
            for m in ("rgb", "raw", "ycbcr422") for dev in (0, 6, 7) for k in (16, 64, 512, 1024) for l in (1, 20)
            for p in ([8, 9, 10, 11, 5, 6, 7, 8], [40, 50, 60, 79, 30, 31, 32, 34])
            if not (dev and (m != "rgb" or l == 20 and k == 16))],
            rule="with the buffer full, the memory stops: the display goes on for as many words as the buffer is deep"),
        Sub("histories", history, strategy=histories(), quick=400, thorough=6000,
            rule="generated rasters, buffers, memory latencies and stalls, display stalls, clock ratios, buffer swaps and on/off histories in the three modes; non-trivial = at least two whole frames"),
        Sub("swap", latest, strategy=latests(), quick=60, thorough=1500,
            rule="a buffer swap at a generated time, unstalled; non-trivial = the two buffers differ"),
        Sub("long underflow", underflow, cases=[
            {"mode": m, "depth": 4, "ps": 2, "pv": 3, "ph": 1, "cready": [1] + [0]*39, "lat": [5], "rasters": [[7, 8, 9, 10, 5, 6, 7, 8]], "base": 77, "n": n,
             "pre": 1, "ready": [1]} for m, n in (("rgb", 250), ("rgb", 120000), ("raw", 400000), ("ycbcr422", 90000))],
            rule="counts beyond 65536"),
        Sub("underflow", underflow, strategy=underflows(), quick=150, thorough=3000,
            rule="counter read after generated display and memory stalls; non-trivial = some clocks had no data"),
    ]
