"""C26: the capture DMA writes whole frames into the slots software handed to it."""
import numpy as np
from hypothesis import strategies as st

from lib.pbt import Sub, Info, Violation, rng
from lib.hw import sim
from lib.csr import WithBank, Play
from vsim.sim import Design

PID = "C26"
EMPTY, LOADED, PENDING = 0, 1, 2
SLACK = 8          # clocks between a register change and its effect


def dut(dw, nslots, bw, aw):
    def make():
        from litedram.common import LiteDRAMNativePort
        from litevideo.input.dma import DMA
        port = LiteDRAMNativePort("write", aw, dw)
        x = DMA(port, nslots)
        m = WithBank(x, bw)
        d = m.ports(Design(m, ["sys"]))
        d.port("valid", x.frame.valid)
        d.port("ready", x.frame.ready)
        d.port("sof", x.frame.sof)
        d.port("pixels", x.frame.pixels)
        d.port("irq", x.ev.irq)
        for n, s in (("cv", port.cmd.valid), ("cr", port.cmd.ready), ("cw", port.cmd.we), ("ca", port.cmd.addr),
                     ("wv", port.wdata.valid), ("wr", port.wdata.ready), ("we", port.wdata.we), ("wd", port.wdata.data)):
            d.port(n, s)
        return d
    return sim(("dma", dw, nslots, bw, aw), make)


def words(case):
    """the stream: (sof, data), gaps; every word has its own contents"""
    dw = case["dw"]
    g = rng("c26", case["seed"])
    total = sum(f[0] for f in case["frames"])
    if total > 60000:
        d = (np.arange(total, dtype=np.uint64)*np.uint64(2654435761) & np.uint64(2**32 - 1)).astype(np.int64)
    elif dw == 16:
        d = g.permutation(65536)[:total]
    else:
        d = g.permutation(1 << 16)[:total] | g.integers(0, 1 << (dw - 17), total) << 16
    sof, gaps, first = [], [], []
    for n, gap, wg in case["frames"]:
        first.append(len(sof))
        sof += [1] + [0]*(n - 1)
        gaps += [gap] + [wg[i % len(wg)] for i in range(n - 1)]
    return np.stack([np.array(sof), d], axis=1).astype(np.uint64), gaps, first


class Harness:
    def __init__(self, case):
        self.c = case
        self.s = dut(case["dw"], case["nslots"], case["bw"], case["aw"])
        self.pl = Play(self.s.design.csr)
        self.items, self.gaps, self.first = words(case)

    def run(self):
        c = self.c
        return self.s.run(self.pl.now() + 2, self.pl.bfms("sys") + [
            dict(kind="src", dom="sys", name="src", p=["valid", "ready", "sof", "pixels"], a=self.items, gaps=self.gaps),
            dict(kind="wrmem", dom="sys", name="mem", p=["cv", "cr", "cw", "ca", "wv", "wr", "we", "wd"], ready=c["cready"], lat=c["lat"]),
            dict(kind="rec", dom="sys", name="irq", p=["irq"])], clock="sys")


def fn(case):
    h = Harness(case)
    pl = h.pl
    al = {16: 1, 32: 2, 64: 3}[case["dw"]]
    fs = case["fs"]
    AW = case["aw"]
    ns = case["nslots"]
    loads = []                       # (slot, address, clock the slot becomes loaded)
    state = {i: None for i in range(ns)}     # address while loaded
    pl.wr("frame_size", fs << al)
    pl.wr("ev_enable", case["enable"] & (2**ns - 1))
    checks = []                      # (clock, kind, slot, read index)

    def status(i):
        pl.rd("slot{}_status".format(i))
        pl.idle(1)
        v = pl.results(h.run())[-1][2]
        return v
    acks = []                        # (clock, slot)
    for op in case["ops"]:
        pl.idle(op[1])
        i = op[2] % ns
        if op[0] == "load":
            if status(i) == LOADED:
                continue
            a = op[3] % (2**AW - fs + 1)
            pl.wr("slot{}_address".format(i), a << al)
            pl.wr("slot{}_status".format(i), LOADED)
            loads.append((i, a, pl.now()))
        elif op[0] == "ack":
            if status(i) != PENDING:
                continue
            pl.wr("slot{}_status".format(i), EMPTY)
            acks.append((pl.now(), i))
        elif op[0] == "look":
            pl.rd("slot{}_status".format(i))
            checks.append((pl.now(), i, len(pl.reads) - 1))
        elif op[0] == "wait":
            pl.idle(op[3])
    duty = case["cready"].count(1)/len(case["cready"])
    pl.idle(int((len(h.items) + sum(h.gaps))/duty) + 60 + 2*max(case["lat"]))
    final = len(pl.reads)
    for i in range(ns):
        pl.rd("slot{}_status".format(i))
        pl.rd("slot{}_address".format(i))
    pl.rd("ev_pending")
    pl.rd("ev_status")
    pl.idle(6)
    tend = pl.now()
    r = h.run()
    res = pl.results(r)
    m = r.by["mem"]
    if m.viol:
        raise Violation("a write command has no data when the memory wants it (clock {})".format(m.violt))
    log = m.log.astype(np.int64)
    acc = r.by["src"].log[:, 0].astype(np.int64)
    if len(log) and (m.log[:, 1] >> np.uint64(63)).any():
        raise Violation("the DMA issues a read")
    if len(log) and (log[:, 2] != 2**(case["dw"]//8) - 1).any():
        raise Violation("a word is written with byte enables {:#x}".format(int(log[0, 2])))
    if len(acc) < len(h.items):
        f = int(np.searchsorted(h.first, len(acc), side="right") - 1)
        raise Violation("the DMA stops taking words: {} of {}, the next is word {} of frame {} ({} slots were loaded)".format(
            len(acc), len(h.items), len(acc) - h.first[f], f, len(loads)))
    # frames written
    data = m.log[:, 4]
    pos = {int(h.items[k, 1]): k for k in range(len(h.items))}
    free = list(loads)
    used = []                # (slot, address, load clock, frame, clock complete)
    last = -1
    mask = np.uint64(2**case["dw"] - 1)
    k = 0
    while k < len(log):
        n = min(fs, len(log) - k)
        t = int(log[k, 0])
        a = int(log[k, 1])
        p = pos.get(int(data[k]))
        if p is None:
            raise Violation("a word that was never received is written at {:#x}".format(a))
        f = int(np.searchsorted(h.first, p, side="right") - 1)
        if p != h.first[f]:
            raise Violation("a transfer starts with word {} of frame {} instead of its first".format(p - h.first[f], f))
        if f <= last:
            raise Violation("frame {} is written again".format(f))
        last = f
        bad = np.flatnonzero(log[k:k + n, 1] != a + np.arange(n))
        if len(bad):
            b = int(bad[0])
            raise Violation("word {} of a frame written at {:#x} (frame size {}) goes to address {:#x}".format(b, a, fs, int(log[k + b, 1])))
        e = h.items[p:p + n, 1] & mask
        if len(e) < n or (data[k:k + n] != e).any():
            b = int(np.flatnonzero(data[k:k + len(e)] != e)[0]) if len(e) and (data[k:k + len(e)] != e).any() else len(e)
            raise Violation("word {} of frame {} in memory is {:#x}, received {:#x}".format(b, f, int(data[k + b]), int(e[b]) if b < len(e) else -1))
        start = int(acc[p])
        cand = [x for x in free if x[1] == a and x[2] <= start]
        if not cand:
            raise Violation("frame {} is written to {:#x} at clock {}, where no loaded slot points (loaded then: {})".format(
                f, a, t, [(i, hex(b)) for i, b, c in free if c <= t]))
        # several loaded slots may have the same address: the status of each tells which (checked below)
        x = cand[0]
        free.remove(x)
        done = int(log[k + n - 1, 0]) if n == fs else None
        used.append((x[0], a, x[2], f, done, start))
        k += n
    # a frame finding a loaded slot is taken
    capt = {u[3] for u in used}
    busy_until = -10**9
    byframe = {u[3]: u for u in used}
    avail = []
    for f in range(len(h.first)):
        if f in byframe:
            if byframe[f][4] is None:
                busy_until = 10**12
            else:
                busy_until = byframe[f][4]
            continue
        if h.first[f] >= len(acc):
            break
        t = int(acc[h.first[f]])
        if t < busy_until:               # a whole frame is held back until the one before is done
            raise Violation("frame {} is dropped at clock {} while the frame before is being written".format(f, t))
        # slots loaded well before and not yet used by then
        lo = [x for x in loads if x[2] + SLACK < t and not any((u[0], u[1], u[2]) == x and u[5] <= t for u in used)]
        if lo:
            raise Violation("frame {} arrives at clock {} and is dropped although slot {} was loaded at clock {}".format(f, t, lo[0][0], lo[0][2]))
    dup = len({x[1] for x in loads}) < len(loads)
    # register view
    if not dup:
        lastload = {}
        for x in loads:
            lastload[x[0]] = x
        usedby = {(u[0], u[1], u[2]): u for u in used}

        def expect(i, t):
            """possible statuses of slot i at clock t"""
            x = [y for y in loads if y[0] == i and y[2] <= t]
            ack = [c for c, j in acks if j == i and c <= t]
            if not x or (ack and ack[-1] > x[-1][2]):
                return {EMPTY}
            u = usedby.get(x[-1])
            if u is None or u[4] is None or u[4] > t:
                return {LOADED}
            if u[4] + SLACK < t:
                return {PENDING}
            return {LOADED, PENDING}
        for t, i, ri in checks:
            v = res[ri][2]
            if v not in expect(i, t - 1) | expect(i, t):
                raise Violation("slot {} has status {} at clock {}, expected {}".format(i, v, t, sorted(expect(i, t))))
        pend = 0
        for i in range(ns):
            v, a = res[final + 2*i][2], res[final + 2*i + 1][2]
            ex = expect(i, tend)
            if v not in ex:
                raise Violation("at the end slot {} has status {}, expected {}".format(i, v, sorted(ex)))
            if v == PENDING:
                pend |= 1 << i
                u = usedby[lastload[i]]
                if a not in ((u[1] + fs) << al, (u[1] + fs) % 2**AW << al):
                    raise Violation("slot {} reports {:#x} as the address reached by a frame of {:#x} words at {:#x}".format(i, a, fs, u[1]))
            elif v == LOADED and a != lastload[i][1] << al:
                raise Violation("the address of loaded slot {} changed to {:#x}".format(i, a))
        for q in (0, 1):
            v = res[final + 2*ns + q][2]
            if v != pend:
                raise Violation("event {} is {:#b}, pending slots are {:#b}".format(["pending", "status"][q], v, pend))
        irq = int(r.by["irq"].log[tend - 2, 1])
        if irq != int(bool(pend & case["enable"])):
            raise Violation("the interrupt is {} with pending slots {:#b} and enable {:#b}".format(irq, pend, case["enable"]))
    whole = sum(u[4] is not None for u in used)
    dropped = len(h.first) - len(used)
    return Info(nontrivial=whole >= 2 and len(loads) > 1, evals=len(log) + 1,
                labels=["captured{}".format(min(whole, 6)), "dropped" if dropped else "all", "slots{}".format(ns)])


def large(case):
    fs = case["fs"]
    x = fn({"aw": 24, "dw": case["dw"], "nslots": 2, "bw": 32, "fs": fs, "seed": 1, "frames": [[fs, 40, [0]]]*2, "enable": 3,
            "cready": [1, 1, 1, 0], "lat": [4, 7], "ops": [["load", 3, 0, case["a"][0]], ["load", 3, 1, case["a"][1]]]})
    if "captured2" not in x.labels:
        raise Violation("frames of {} words: {}".format(fs, x.labels))
    return x


@st.composite
def cases(draw):
    ns = draw(st.sampled_from([2, 2, 2, 3, 4, 1]))
    aw = draw(st.sampled_from([7, 12, 24]))
    big = aw == 7 and draw(st.booleans())
    fs = draw(st.integers(50, 128) if big else st.integers(1, 24))
    frames = []
    for i in range(draw(st.integers(3, 5 if big else 12))):
        n = fs + draw(st.sampled_from([0, 0, 0, 1, 5]))
        frames.append([n, draw(st.sampled_from([0, 1, 3, 10, 20, 40, 60, 90, 150])), draw(st.lists(st.integers(0, 3), min_size=1, max_size=3))])
    addr = st.integers(0, 4095) if aw < 24 else st.one_of(st.integers(0, 4095), st.integers(0, 2**24 - 1))
    op = st.one_of(
        st.tuples(st.just("load"), st.integers(0, 10), st.integers(0, ns - 1), addr),
        st.tuples(st.just("load"), st.integers(0, 40), st.integers(0, ns - 1), addr),
        st.tuples(st.just("load"), st.integers(0, 40), st.integers(0, ns - 1), addr),
        st.tuples(st.just("ack"), st.integers(0, 20), st.integers(0, ns - 1), st.just(0)),
        st.tuples(st.just("look"), st.integers(0, 60), st.integers(0, ns - 1), st.just(0)),
        st.tuples(st.just("wait"), st.just(0), st.just(0), st.integers(1, 90)))
    return {"aw": aw, "dw": draw(st.sampled_from([16, 32, 64])), "nslots": ns, "bw": draw(st.sampled_from([8, 32])), "fs": fs,
            "seed": draw(st.integers(0, 2**16)), "frames": frames, "enable": draw(st.integers(0, 2**ns - 1)),
            "cready": draw(st.one_of(st.just([1]), st.lists(st.integers(0, 1), max_size=6).map(lambda l: l + [1]))),
            "lat": draw(st.lists(st.integers(1, 12), min_size=1, max_size=5)),
            "ops": [list(x) for x in draw(st.lists(op, min_size=8, max_size=30))]}


def long(case):
    """software that keeps up with hundreds of frames"""
    g = rng("c26l", case)
    fs = int(g.integers(2, 9))
    ns = [2, 3, 4, 1][case["s"] % 4]
    n = 150
    frames = [[fs + int(g.integers(0, 2)), int(g.integers(20, 120)), [int(g.integers(0, 2))]] for _ in range(n)]
    ops = []
    for k in range(2*n):
        i = k//2 % ns
        ops.append(["ack" if k & 1 == 0 else "load", int(g.integers(0, 30)), i, int(g.integers(0, 4096))])
    c = {"aw": [7, 12, 24][case["s"] % 3], "dw": [16, 32, 64][case["s"] // 3 % 3], "nslots": ns, "bw": 32, "fs": fs, "seed": case["s"], "frames": frames,
         "enable": 2**ns - 1, "cready": [1, 1, 0] if case["s"] & 1 else [1], "lat": [3, 6], "ops": ops}
    x = fn(c)
    return Info(evals=x.evals, labels=x.labels, sample=case)


def subs(tier):
    big = [{"fs": 70000, "a": [0xfe0000, 0x10], "dw": 32}]
    if tier != "quick":
        big += [{"fs": 1920*1080, "a": [0x012345, 0xc00000], "dw": 32}, {"fs": 1920*1080//2, "a": [0x800000, 0xf02000], "dw": 64}]
    return [Sub("large", large, cases=big, rule="frames of up to 1920x1080"),
            Sub("histories", fn, strategy=cases(), quick=300, thorough=6000,
                rule="generated frames, gaps, slot loads and acknowledgements (software reads the status before it writes), memory stalls and latencies; non-trivial = two whole frames captured with several loads"),
            Sub("long", long, cases=lambda t: [{"s": i} for i in range(8 if t == "quick" else 200)],
                rule="150 frames in a row with software loading and acknowledging slots all along")]
