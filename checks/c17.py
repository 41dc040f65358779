"""C17: registers of the clock generators."""
import numpy as np
from hypothesis import strategies as st
from migen import Signal

from lib.pbt import Sub, Info, Violation, rng
from lib.hw import sim
from lib.csr import WithBank, Play
from lib import xil
from vsim.sim import Design, HarnessError
from vsim.lower import lower

PID = "C17"
ASSUMPTIONS = ["software waits for an access or a command to finish before it starts the next one; the PLL answers a few clocks after an access"]
SLACK = 4        # clocks between a register access and its effect, or a pin and the register showing it
BUSY = 13

DESIGNS = {
    # name: (primitives: (cell, suffix of the access registers, of the data register), register stem)
    "s6out": ([("PLL_ADV", "", "")], "pll"),
    "s7out": ([("MMCME2_ADV", "", "")], "mmcm"),
    "s6in": ([("PLL_ADV", "", "")], "pll"),
    "s7in": ([("MMCME2_ADV", "", "")], "mmcm"),
    "s7split": ([("MMCME2_ADV", "", ""), ("PLLE2_ADV", "_o", "_o")], "mmcm"),
}


class Pads:
    def __init__(self):
        self.clk_p, self.clk_n = Signal(name="clk_p"), Signal(name="clk_n")


def dut(name, bw):
    def make():
        pads = Pads()
        if name == "s6out":
            from litevideo.output.hdmi.s6 import S6HDMIOutClocking
            x = S6HDMIOutClocking(pads, None)
            doms = ["pix2x", "pix10x", "base50"]
        elif name == "s7out":
            from litevideo.output.hdmi.s7 import S7HDMIOutClocking
            x = S7HDMIOutClocking(pads, None)
            doms = ["pix5x", "clk100"]
        elif name == "s6in":
            from litevideo.input.clocking import S6Clocking
            x = S6Clocking(pads)
            doms = ["pix2x", "pix10x"]
        else:
            from litevideo.input.clocking import S7Clocking
            x = S7Clocking(pads, split_clocking=name == "s7split")
            doms = ["pix1p25x", "pix5x"]
        m = WithBank(x, bw)
        d = m.ports(Design(m, ["sys", "pix"] + doms))

        def late(L, d):
            for k, (of, sa, sd) in enumerate(DESIGNS[name][0]):
                i = xil.one(L, of)
                for p in ("DADDR", "DI", "DEN", "DWE", "RST", "DO", "DRDY", "LOCKED"):
                    xil.port(d, i, "{}{}".format(p.lower(), k), p)
            for i in L.instances:
                if i.of == "BUFPLL":
                    xil.port(d, i, "lock", "LOCK")
            if name == "s6out":
                i = xil.one(L, "DCM_CLKGEN")
                for p in ("PROGDATA", "PROGEN", "PROGDONE", "LOCKED"):
                    xil.port(d, i, "dcm_" + p.lower(), p)
        d.late.append(late)
        return d
    return sim(("clk", name, bw), make)


def fn(case):
    name, bw = case["name"], case["bw"]
    s = dut(name, bw)
    prims, stem = DESIGNS[name]
    np_ = len(prims)
    pl = Play(s.design.csr)
    pl.idle(3)
    acc = []            # (primitive, write?, address, data, first clock it may start)
    ans = []            # (primitive, clock of DRDY, value)
    locks = []          # (clock, which, level)
    rst = []            # (clock, level)
    sends, gos, polls = [], [], []
    adr, dat, cmd = 0, 0, 0
    bits = 5 if stem == "pll" else 7
    expd = []           # (read index, kind, expected)
    ready = [None]*np_
    drdy = [0]*np_
    do = [0]*np_
    level = {"locked0": 0, "lock": 0, "dcm_locked": 0, "dcm_progdone": 0, "locked1": 0}
    for op in case["ops"]:
        k = op[0]
        if k == "acc":
            _, p, wr, a, v, d, wait, setadr = op
            p %= np_
            a &= 2**bits - 1
            if setadr or a != adr:
                pl.wr(stem + "_adr", a)
                adr = a
            if wr and (setadr or v != dat):
                pl.wr(stem + "_dat_w", v)
                dat = v
            pl.wr("{}_{}{}".format(stem, "write" if wr else "read", prims[p][1]), 1)
            t = pl.now()
            acc.append((p, wr, adr, dat, t))
            # the answer comes later than the slack
            at = t + SLACK + 2 + d
            pl.idle(SLACK)
            if d > 3:
                pl.rd("{}_drdy{}".format(stem, prims[p][1]))
                expd.append(("drdy", p, 0))
                for q in range(np_):
                    if q != p:
                        pl.rd("{}_drdy{}".format(stem, prims[q][1]))
                        expd.append(("drdy", q, drdy[q]))
            if d > 8 and wait & 1:
                # the registers may already change for the next access
                adr = (adr + 1) & (2**bits - 1)
                pl.wr(stem + "_adr", adr)
            if pl.now() < at:
                pl.idle(at - pl.now())
            at = pl.now()
            r = (a*257 + v*3 + len(acc)*7919) & 0xffff
            ans.append((p, at, r))
            do[p] = r
            drdy[p] = 1
            pl.idle(SLACK + wait)
            for q in range(np_):
                pl.rd("{}_drdy{}".format(stem, prims[q][1]))
                expd.append(("drdy", q, drdy[q]))
                dr = "{}_dat{}_r".format(stem, prims[q][2])
                pl.rd(dr)
                expd.append(("data read", q, do[q]))
        elif k == "lock":
            n = op[1]
            level[n] = 1 - level[n]
            locks.append((pl.now(), n, level[n]))
            pl.idle(SLACK + 4)
            if name == "s6out":
                pl.rd("status")
                expd.append(("status", 0, level["dcm_progdone"] << 1 | level["dcm_locked"] << 2 | level["lock"] << 3))
            elif name in ("s6in", "s7in", "s7split"):
                pl.rd("locked")
                expd.append(("locked", 0, level["lock"] if name == "s6in" else level["locked0"]))
        elif k == "rst":
            pl.wr(stem + "_reset", op[1])
            rst.append((pl.now(), op[1]))
            pl.idle(SLACK + 2)
        elif k == "send" and name == "s6out":
            _, v, early, gap = op
            if early or v != cmd:
                pl.wr("cmd_data", v)
                cmd = v
            pl.wr("send_cmd_data", 1)
            sends.append((pl.now(), cmd))
            t = pl.now()
            first = len(pl.reads)
            if early == 2:
                # the next command is prepared while this one goes out
                pl.idle(2)
                cmd ^= 0x2a5
                pl.wr("cmd_data", cmd)
            if case["bw"] == 32 or True:
                for i in range(BUSY + SLACK + 4):
                    pl.rd("status")
                    expd.append(("busy", None, None))
            polls.append((t, first))
            pl.idle(gap)
        elif k == "go" and name == "s6out":
            pl.wr("send_go", 1)
            gos.append(pl.now())
            pl.idle(SLACK + 2 + op[1])
        elif k == "idle":
            pl.idle(op[1])
    pl.idle(SLACK + 4)
    n = pl.now()
    # inputs
    cols = []
    outs = []
    for k in range(np_):
        cols += ["drdy{}".format(k), "do{}".format(k), "locked{}".format(k)]
        outs += ["den{}".format(k), "dwe{}".format(k), "daddr{}".format(k), "di{}".format(k), "rst{}".format(k)]
    if "lock" in s.design.ports:
        cols.append("lock")
    if name == "s6out":
        cols += ["dcm_locked", "dcm_progdone"]
        outs += ["dcm_progen", "dcm_progdata"]
    a = np.zeros((n, len(cols)), dtype=np.uint64)
    for p, t, v in ans:
        a[t, cols.index("drdy{}".format(p))] = 1
        a[t:, cols.index("do{}".format(p))] = v
    for t, w, v in locks:
        if w in cols:
            a[t:, cols.index(w)] = v
    r = s.run(n, pl.bfms("sys") + [
        dict(kind="play", dom="sys", p=cols, a=a),
        dict(kind="rec", dom="sys", name="o", p=outs)], clock="sys")
    log = r.by["o"].log[:, 1:].astype(np.int64)
    res = pl.results(r)
    # accesses
    for p in range(np_):
        den = log[:, outs.index("den{}".format(p))]
        dwe = log[:, outs.index("dwe{}".format(p))]
        mine = [x for x in acc if x[0] == p]
        got = np.flatnonzero(den).tolist()
        cell = prims[p][0]
        for j, (_, wr, ad, v, t) in enumerate(mine):
            c = [g for g in got if t - 1 <= g <= t + SLACK]
            if len(c) != 1:
                raise Violation("{} {}: the {} of register {:#x} enables the port {} times".format(name, cell, "write" if wr else "read", ad, len(c)))
            g = c[0]
            got.remove(g)
            row = [int(log[g, outs.index("{}{}".format(q, p))]) for q in ("dwe", "daddr", "di")]
            if row[0] != int(wr) or row[1] != ad or (wr and row[2] != v):
                raise Violation("{} {}: a {} of register {:#x} (data {:#x}) arrives as write={}, address {:#x}, data {:#x}".format(
                    name, cell, "write" if wr else "read", ad, v, row[0], row[1], row[2]))
        if got:
            raise Violation("{} {}: port enabled at clock {} without an access".format(name, cell, got[0]))
        if (dwe & (1 - den)).any():
            raise Violation("{} {}: write enable without port enable".format(name, cell))
        # reset
        reg = np.full(n, 1 if name in ("s6in", "s7in", "s7split") else 0)
        fuzzy = np.zeros(n, dtype=bool)
        for t, v in rst:
            reg[t:] = v
            fuzzy[max(0, t - 1):t + SLACK] = True
        e = reg
        if name == "s6out":
            e = reg | (1 - a[:, cols.index("dcm_locked")].astype(np.int64))
            for t, w, v in locks:
                if w == "dcm_locked":
                    fuzzy[max(0, t - 1):t + SLACK] = True
        o = log[:, outs.index("rst{}".format(p))]
        bad = np.flatnonzero((o != e) & ~fuzzy)
        if len(bad):
            raise Violation("{} {}: reset is {} at clock {}, expected {}".format(name, cell, int(o[bad[0]]), int(bad[0]), int(e[bad[0]])))
    # register reads
    for (nm, t, v), (kind, p, e) in zip(res, expd):
        if kind == "busy":
            continue
        if v != e:
            raise Violation("{}: register {} reads {:#x} at clock {}, expected {:#x}".format(name, nm, v, t, e))
    # commands of the pixel clock generator
    if name == "s6out":
        en = log[:, outs.index("dcm_progen")]
        da = log[:, outs.index("dcm_progdata")]
        free = en.copy()
        for t, v in sends:
            w = np.flatnonzero(en[t - 1:t + SLACK + 1])
            if not len(w):
                raise Violation("s6out: command {:#x} is not sent".format(v))
            f = t - 1 + int(w[0])
            l = 0
            while f + l < n and en[f + l]:
                l += 1
            if l != 10:
                raise Violation("s6out: a command is sent with {} clocks of enable".format(l))
            x = sum(int(b) << i for i, b in enumerate(da[f:f + 10]))
            if x != v:
                raise Violation("s6out: command {:010b} is sent as {:010b} (least significant bit first)".format(v, x))
            free[f:f + 10] = 0
        for t in gos:
            w = np.flatnonzero(free[t - 1:t + SLACK + 1])
            if len(w) != 1:
                raise Violation("s6out: go enables the programming port for {} clocks".format(len(w)))
            f = t - 1 + int(w[0])
            if da[f]:
                raise Violation("s6out: go sends a data bit")
            free[f] = 0
        if free.any():
            raise Violation("s6out: programming port enabled at clock {} without a command".format(int(np.flatnonzero(free)[0])))
        if (da & (1 - en)).any():
            raise Violation("s6out: programming data without enable")
        for t, first in polls:
            b = [(x[1], x[2] & 1) for x in res[first:first + BUSY + SLACK + 4] if x[0] == "status"]
            hi = [c for c, v in b if v]
            # a poll that starts late cannot see the first clocks of busy
            lo, cl = b[0][0], t + 1
            want = BUSY - max(0, lo - cl - 1)
            f = [int(c) for c in np.flatnonzero(en) if c >= t - 1][0]
            if not hi or hi != list(range(hi[0], hi[0] + len(hi))):
                raise Violation("s6out: busy reads {} after a command".format([v for c, v in b]))
            if b[0][1] != 1 and b[0][0] > t + 2:
                raise Violation("s6out: not busy while a command is sent")
            end = hi[-1] - 1           # the clock sampled by the last busy read
            if not f + 10 + 1 <= end <= f + 10 + SLACK + 2:
                raise Violation("s6out: busy until {} clocks after the last bit of a command".format(end - (f + 9)))
    return Info(nontrivial=len(acc) + len(sends) >= 2, evals=len(acc) + len(sends) + len(gos) + len(expd),
                labels=[name, "bus{}".format(bw)])


@st.composite
def cases(draw):
    name = draw(st.sampled_from(["s6out", "s6out", "s7out", "s6in", "s7in", "s7split"]))
    acc = st.tuples(st.just("acc"), st.integers(0, 1), st.booleans(), st.integers(0, 127), st.integers(0, 65535),
                    st.integers(0, 20), st.integers(0, 6), st.booleans())
    names = {"s6out": ["lock", "dcm_locked", "dcm_progdone", "locked0"], "s7out": ["locked0"], "s6in": ["lock", "locked0"],
             "s7in": ["locked0"], "s7split": ["locked0", "locked1"]}[name]
    ops = [acc, acc, st.tuples(st.just("lock"), st.sampled_from(names)), st.tuples(st.just("rst"), st.integers(0, 1)),
           st.tuples(st.just("idle"), st.integers(1, 30))]
    if name == "s6out":
        send = st.tuples(st.just("send"), st.integers(0, 1023), st.integers(0, 2), st.integers(0, 20))
        ops += [send, send, st.tuples(st.just("go"), st.integers(0, 5))]
    return {"name": name, "bw": draw(st.sampled_from([8, 32])),
            "ops": [list(x) for x in draw(st.lists(st.one_of(*ops), min_size=2, max_size=14))]}


def long(case):
    """every register address and every command, in one run, among hundreds of changes of the lock inputs"""
    g = rng("c17l", case)
    name = case["name"]
    names = {"s6out": ["lock", "dcm_locked", "dcm_progdone", "locked0"], "s7out": ["locked0"], "s6in": ["lock", "locked0"],
             "s7in": ["locked0"], "s7split": ["locked0", "locked1"]}[name]
    bits = 5 if DESIGNS[name][1] == "pll" else 7
    ops = []
    magic = [0, 1, 0xffff, 0xfffe, 0x8000, 0x7fff, 0x5555, 0xaaaa]
    accs = [(p, wr, a) for p in range(len(DESIGNS[name][0])) for wr in (False, True) for a in range(2**bits)]*case["n"]
    accs += [(None, None, v) for v in range(1024)] if name == "s6out" else []
    for i in g.permutation(len(accs)):
        p, wr, a = accs[i]
        if p is None:
            ops.append(["send", a, int(g.integers(0, 3)), int(g.integers(0, 4))])
        else:
            v = magic[int(g.integers(0, 8))] if g.random() < 0.2 else int(g.integers(0, 65536))
            ops.append(["acc", p, wr, a, v, int(g.integers(0, 12)), int(g.integers(0, 4)), bool(g.integers(0, 2))])
        x = g.random()
        if x < 0.3:
            ops.append(["lock", names[int(g.integers(0, len(names)))]])
        elif x < 0.4:
            ops.append(["rst", int(g.integers(0, 2))])
        elif x < 0.5:
            ops.append(["go", 1])
    return fn({"name": name, "bw": case["bw"], "ops": ops})


def constants(case):
    """what software is told about the range of the pixel clock is what the primitive is built for"""
    from litevideo.output.hdmi.s6 import S6HDMIOutClocking
    f = case["f"]
    x = S6HDMIOutClocking(Pads(), None, f) if f != 100e6 or case["explicit"] else S6HDMIOutClocking(Pads(), None)
    told = {c.name: float(c.value.value if hasattr(c.value, "value") else c.value) for c in x.get_constants()}
    L = lower(x, ["sys", "base50"])
    p = {k: v.value if hasattr(v, "value") else v for k, v in xil.one(L, "DCM_CLKGEN").params.items()}
    top = float(p["CLKFX_MD_MAX"])
    for name, want in (("max_pix_clk", f), ("clkfx_md_max_1000", 1000*top)):
        if name not in told:
            raise Violation("no constant {} among {}".format(name, sorted(told)))
        if abs(told[name] - want) > 1:
            raise Violation("built for pixel clocks up to {:.0f} Hz (ratio up to {}), software is told {} = {}".format(f, top, name, told[name]))
    if top*50e6 < f - 1:
        raise Violation("built for pixel clocks up to {:.0f} Hz, the ratio to the 50 MHz base is limited to {}".format(f, top))
    first = float(p["CLKFX_MULTIPLY"])/float(p["CLKFX_DIVIDE"])
    if first > top + 1e-9:
        raise Violation("the ratio at power-up, {}, is above the limit {}".format(first, top))
    return Info(nontrivial=f != 100e6, evals=4, labels=["below 25 MHz" if f < 25e6 else "above"])


def subs(tier):
    return [Sub("constants", constants, strategy=st.fixed_dictionaries({"f": st.one_of(st.just(100e6), st.integers(25, 1080).map(lambda k: k*1e6/4)), "explicit": st.booleans()}), quick=60, thorough=400,
                rule="maximum pixel clocks from 6 to 270 MHz: constants announced to software against the parameters of the clock generator; non-trivial = not the default"),
            Sub("registers", fn, strategy=cases(), quick=500, thorough=15000,
                rule="generated sequences of PLL accesses with answer times, clock commands, resets and lock changes; every pin of the primitives is compared "
                     "with the accesses made; non-trivial = two accesses or commands"),
            Sub("long", long, cases=lambda t: [{"name": x, "bw": bw, "n": 1 if t == "quick" else 4, "rep": r} for r in range(1 if t == "quick" else 30) for x in DESIGNS for bw in (8, 32)],
                rule="one long run per generator: every register read and written in random order, every command, hundreds of lock changes and resets")]
