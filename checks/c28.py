"""C28: data capture."""
import numpy as np
from hypothesis import strategies as st

from lib.pbt import Sub, Info, Violation, rng
from lib.hw import sim
from lib.csr import WithBank, Play
from lib import xil
from vsim.sim import Design

PID = "C28"
ASSUMPTIONS = ["deserialisers, delay elements and buffers are models of the vendor primitives (oldest bit first, as the vendor documents)",
               "clocks derived from one PLL have aligned edges; commands are spaced by at least a few clocks of either domain"]
S6 = ["master_cal", "master_rst", "slave_cal", "slave_rst", "inc", "dec"]
S7 = ["rst", "master_inc", "master_dec", "slave_inc", "slave_dec"]


def dut(dev, inv, nt):
    from migen import Signal

    def make():
        from litevideo.input import datacapture
        p, n = Signal(name="pad_p"), Signal(name="pad_n")
        if inv:
            p.inverted = True
        cls = datacapture.S6DataCapture if dev == 6 else datacapture.S7DataCapture
        x = cls(p, n) if nt == 8 else cls(p, n, ntbits=nt)
        m = WithBank(x)
        d = m.ports(Design(m, ["sys", "pix"] + (["pix2x", "pix10x"] if dev == 6 else ["pix1p25x", "pix5x"])))
        d.port("d", x.d)
        d.port("pad_p", p)
        m.comb += n.eq(~p)
        d.late.append(xil.s6_capture if dev == 6 else xil.s7_capture)
        return d
    return sim("cap{},{},{}".format(dev, inv, nt), make)


def fn(case):
    dev, inv, nt = case["dev"], case["inv"], case["nt"]
    s = dut(dev, inv, nt)
    g = rng("c28", case["seed"])
    per = 4*case["u"]                    # period of the capture clock (pix2x or pix1p25x)
    ppix = 2*per if dev == 6 else per*5//4
    ps = case["ps"]
    cap = "pix2x" if dev == 6 else "pix1p25x"
    slow = max(per, ps)
    # activity per capture clock
    act, late = [], []
    pl = Play(s.design.csr)
    cmds = []              # (sys clock of the write, bits)
    resets = []            # capture clocks within which the reset takes effect
    reads = []             # (kind, time)

    def at(time):
        k = -(-time//ps)
        if k > pl.now():
            pl.idle(k - pl.now())

    def wait(n):
        """n capture clocks without phase information"""
        act.extend([0]*n)
        late.extend(int(x) for x in g.integers(0, 2, n))
    q = 14*slow//per + 6
    bl = []                # busy lengths over time (S6)
    wait(q)
    for seg in case["segs"]:
        n, how, op = seg[0], seg[1], seg[2]
        t0 = len(act)
        if how == 3:
            wait(n)
        else:
            for i in range(n):
                act.append(1 if how < 3 else int(g.integers(0, 2)))
                late.append({0: 0, 1: 1, 2: int(g.integers(0, 2))}[how % 3] if how < 3 else int(g.integers(0, 2)))
        if op[0] == "cmdin":
            # in the middle of activity
            at((t0 + n//2)*per)
            cmds.append((pl.now(), op[1]))
            pl.wr("dly_ctl", op[1])
        wait(q)
        if op[0] == "cmd":
            for b in op[1]:
                at((len(act) - 2)*per)
                cmds.append((pl.now(), b))
                pl.wr("dly_ctl", b)
                wait(q + (op[2] if dev == 6 else 0))
                pl.idle(1)
                if dev == 6:
                    pl.rd("dly_busy")
                at((len(act) - 3)*per)
                wait(q)
        elif op[0] == "reset":
            at((len(act) - 4)*per)
            resets.append(len(act))
            pl.wr("phase_reset", 1)
        elif op[0] == "measure":
            # single decisions until a flag must have come up
            for i in range(min(2**nt, 20)):
                act.append(1)
                late.append(op[1])
                wait(q)
                at((len(act) - 5)*per)
                pl.rd("phase")
                wait(q)
        elif op[0] == "cnt" and dev == 7:
            wait(2*q + 150)
            at((len(act) - 2)*per)
            pl.rd("cntvalueout_m").rd("cntvalueout_s")
            wait(q)
        wait(q)
        at((len(act) - 5)*per)
        pl.rd("phase")
        wait(q)
        while pl.now()*ps > (len(act) - 4)*per:
            wait(q)
    wait(40)
    n = len(act)
    act, late = np.array(act), np.array(late)
    T = n*per
    bits = np.zeros(T, dtype=np.uint32)
    off = case["off"] if dev == 6 else 0
    bits[::ps] |= s.mask(["sys"])
    bits[::per] |= s.mask([cap])
    bits[per*off::ppix] |= s.mask(["pix"])
    ts = np.flatnonzero(bits)
    mask = bits[ts]
    pad = g.integers(0, 2, n)
    if dev == 6:
        data = g.integers(0, 32, n)
        ins = [dict(kind="play", dom=cap, p=["q", "pd_valid", "pd_incdec", "len_m", "len_s", "pad_p"],
                    a=np.stack([data ^ (31 if inv else 0), act, 1 - late, 0*act + case["bm"], 0*act + case["bs"], pad], axis=1).astype(np.uint64))]
        outs = ["cal_m", "rst_m", "inc_m", "ce_m", "cal_s", "rst_s", "inc_s", "ce_s", "busy_m", "busy_s", "d_m", "d_s", "pad_p"]
        w = 5
    else:
        # words that change when active
        data = np.zeros(n, dtype=np.int64)
        cur = 0
        ch = g.integers(1, 256, n)
        for i in range(n):
            if act[i]:
                cur ^= int(ch[i])
            data[i] = cur
        sl = np.where(late == 1, data ^ g.integers(1, 256, n), data)
        ins = [dict(kind="play", dom=cap, p=["qm", "qs", "pad_p"],
                    a=np.stack([data ^ (255 if inv else 0), sl ^ (0 if inv else 255), pad], axis=1).astype(np.uint64))]
        outs = ["ld_m", "ce_m", "inc_m", "ld_s", "ce_s", "inc_s", "cnt_m", "cnt_s", "d_m", "d_s", "pad_p"]
        w = 8
    r = s.run(len(mask), pl.bfms("sys") + ins + [
        dict(kind="rec", dom=cap, name="c", p=outs),
        dict(kind="rec", dom="pix", name="d", p=["d"])], mask=mask)
    c = {k: r.by["c"].log[:, 1 + i].astype(np.int64) for i, k in enumerate(outs)}
    dw = r.by["d"].log[:, 1].astype(np.int64)
    # wiring of the pads
    if (c["d_m"] != c["pad_p"]).any():
        raise Violation("the master deserialiser does not receive the pad")
    if (c["d_s"] != (c["pad_p"] if dev == 6 else 1 - c["pad_p"])).any():
        raise Violation("the slave deserialiser does not receive the {}pad".format("" if dev == 6 else "complement of the "))
    # the bit stream
    B = ((data[:, None] >> np.arange(w)) & 1).reshape(-1)
    O = ((dw[:, None] >> np.arange(10)) & 1).reshape(-1)
    skip = 140
    best = None
    first = off*w                         # bits captured before the first pix clock
    for D in range(0, skip):
        k = np.arange(skip, len(O))
        src = k + first - D
        ok = src < len(B)
        bad = np.flatnonzero(O[k[ok]] != B[src[ok]])
        if not len(bad):
            break
        if best is None or bad[0] > best[0]:
            best = (int(bad[0]), D)
    else:
        k, D = best
        k += skip
        raise Violation("bit {} of word {} is not the next bit received (the best explanation, a delay of {} bits, holds up to there): word {:#x}".format(
            k % 10, k//10, D, int(dw[k//10])))
    # commands
    names = S6 if dev == 6 else S7
    want = {k: [] for k in names}
    for t, b in cmds:
        for i, k in enumerate(names):
            if b >> i & 1:
                want[k].append(t*ps)
    if dev == 6:
        got = {"master_cal": c["cal_m"], "master_rst": c["rst_m"], "slave_cal": c["cal_s"], "slave_rst": c["rst_s"]}
        for x in "ms":
            got["inc" if x == "m" else "inc'"] = c["ce_" + x] & c["inc_" + x]
            got["dec" if x == "m" else "dec'"] = c["ce_" + x] & (1 - c["inc_" + x])
    else:
        got = {"rst": c["ld_m"], "rst'": c["ld_s"]}
        for x, nm in (("m", "master"), ("s", "slave")):
            got[nm + "_inc"] = c["ce_" + x] & c["inc_" + x]
            got[nm + "_dec"] = c["ce_" + x] & (1 - c["inc_" + x])
    for k, sig in got.items():
        e = want[k.rstrip("'")]
        p = np.flatnonzero(sig)*per
        if len(p) != len(e):
            raise Violation("{}: {} commands written, {} pulses at the delay element{}".format(k.rstrip("'"), len(e), len(p), " (slave)" if k[-1] == "'" else ""))
        for a, b in zip(e, p):
            if not a <= b <= a + 12*slow:
                raise Violation("{} written at time {} reaches the delay element at time {}".format(k.rstrip("'"), a, int(b)))
    # phase accumulator
    lat = 2**(nt - 1)
    top = 2**nt - 1
    hist = np.zeros(n + 1, dtype=np.int64)
    hist[0] = lat
    rs = set(resets)
    prev = 0
    for i in range(n):
        if i in rs:
            lat = 2**(nt - 1)
        if 0 < lat < top:
            if dev == 6:
                if act[i] and not c["busy_m"][i] and not c["busy_s"][i]:
                    lat += 1 if late[i] else -1
            else:
                if data[i] != prev:
                    lat += 1 if late[i] else -1
        prev = data[i]
        hist[i + 1] = lat
    sat = 0
    for name, t, v in pl.results(r):
        i = t*ps//per
        if name == "phase":
            l = int(hist[min(i, n)])
            e = (l == top) | (l == 0) << 1
            sat += e != 0
            if v != e:
                raise Violation("phase reads {} at capture clock {}, the accumulated lateness is {} of {}".format(v, i, l, top))
        elif name.startswith("cntvalueout"):
            x = name[-1]
            j = min(i, n - 1)
            if v != int(c["cnt_" + x][j]):
                raise Violation("{} reads {}, the delay element is at tap {}".format(name, v, int(c["cnt_" + x][j])))
        elif name == "dly_busy":
            # 1 from the write until the element is no longer busy
            for bit, x in enumerate("ms"):
                own = [cc for cc in cmds if cc[0] < t and cc[1] & ((0b110001 if x == "m" else 0b110100))]
                if not own:
                    if v >> bit & 1:
                        raise Violation("busy flag {} set without a command".format(bit))
                    continue
                t0 = own[-1][0]*ps
                # end of the element's activity after the pulse
                pul = np.flatnonzero((c["cal_" + x] | c["ce_" + x])[t0//per:]) + t0//per
                if not len(pul):
                    continue
                e = int(pul[0]) + 1
                while e < n and c["busy_" + x][e]:
                    e += 1
                e *= per
                if t*ps <= e and not v >> bit & 1:
                    raise Violation("busy flag {} reads 0 while the delay element works".format(bit))
                if t*ps > e + 10*slow and v >> bit & 1:
                    raise Violation("busy flag {} still reads 1 long after the delay element finished".format(bit))
    return Info(nontrivial=len(cmds) > 0 and act.sum() > 20, evals=n,
                labels=["s{}".format(dev), "inverted" if inv else "plain", "flag" if sat else "no flag", "cmds{}".format(min(9, len(cmds)))])


@st.composite
def strat(draw):
    dev = draw(st.sampled_from([6, 7]))
    nt = draw(st.sampled_from([8, 4, 4]))
    if dev == 6:
        cm = st.sampled_from([1, 2, 4, 8, 16, 32, 5, 10, 16, 32])
    else:
        cm = st.sampled_from([1, 2, 4, 8, 16, 2 | 8, 4 | 16, 2 | 16, 4 | 8, 2, 4])
    half = 2**(nt - 1)
    ln = st.one_of(st.sampled_from([half - 2, half - 1, half, half + 1, 2*half - 2, 2*half]), st.integers(1, 40))
    op = st.one_of(st.just(["none"]), st.tuples(st.just("measure"), st.integers(0, 1)), st.just(["reset"]), st.just(["cnt"]), st.tuples(st.just("cmd"), st.lists(cm, min_size=1, max_size=6), st.sampled_from([0, 10, 60])),
                   st.tuples(st.just("cmdin"), cm))
    seg = st.tuples(ln, st.integers(0, 4), op).map(lambda x: [x])
    # decisions around a command, then the accumulated value is measured
    around = st.tuples(st.integers(6, 40), st.integers(0, 2), cm, st.integers(0, 1)).map(
        lambda x: [[1, 3, ["reset"]], [x[0], x[1], ["cmdin", x[2]]], [1, 3, ["measure", x[3]]]])
    segs = [y for x in draw(st.lists(st.one_of(seg, seg, around), min_size=1, max_size=5)) for y in x]
    return {"dev": dev, "inv": draw(st.integers(0, 1)), "nt": nt, "seed": draw(st.integers(0, 2**16)), "u": draw(st.integers(1, 2)),
            "ps": draw(st.integers(2, 9)), "off": draw(st.integers(0, 1)), "bm": draw(st.integers(0, 30)), "bs": draw(st.integers(0, 30)), "segs": segs}


def long(case):
    """hundreds of commands and dozens of measurements in one run"""
    g = rng("c28l", case)
    dev = case["dev"]
    cm = [1, 2, 4, 8, 16, 32, 5, 10, 16, 32] if dev == 6 else [1, 2, 4, 8, 16, 10, 20, 18, 12, 2, 4]
    nt = [4, 8][case["s"] % 2]
    half = 2**(nt - 1)
    segs = []
    for _ in range(40):
        k = g.random()
        if k < 0.55:
            op = ["cmd", [cm[int(i)] for i in g.integers(0, len(cm), 8)], [0, 10, 60][int(g.integers(0, 3))]]
        elif k < 0.7:
            op = ["cmdin", cm[int(g.integers(0, len(cm)))]]
        elif k < 0.85:
            op = ["reset"]
        elif k < 0.95:
            op = ["measure", int(g.integers(0, 2))]
        else:
            op = ["cnt"]
        segs.append([int(g.integers(1, 2*half if nt == 4 else 200)), int(g.integers(0, 5)), op])
    x = fn({"dev": dev, "inv": case["s"] // 2 % 2, "nt": nt, "seed": case["s"], "u": 1, "ps": 3 + case["s"] % 5, "off": case["s"] % 2,
            "bm": int(g.integers(0, 31)), "bs": int(g.integers(0, 31)), "segs": segs})
    return Info(evals=x.evals, labels=x.labels, sample=case)


def subs(tier):
    return [Sub("capture", fn, strategy=strat(), quick=300, thorough=6000,
                rule="generated bit streams with early/late decisions, delay commands and phase resets, both families; non-trivial = at least one command and 20 decisions"),
            Sub("long", long, cases=lambda t: [{"dev": d, "s": i} for i in range(6 if t == "quick" else 120) for d in (6, 7)],
                rule="about 180 commands, resets and measurements in one run")]
