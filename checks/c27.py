"""C27: EDID slave."""
import numpy as np
from hypothesis import strategies as st

from lib.pbt import Sub, Info, Violation, rng
from lib.hw import sim
from lib.csr import WithBank, Play
from vsim.sim import Design, HarnessError

PID = "C27"
ADDR = 0x50
TMIN = 72           # clocks a bus level lasts at least (the slave samples every 64 clocks)
ASSUMPTIONS = ["every level of the bus lasts at least {} system clocks (the slave samples it every 64)".format(TMIN),
               "the master only starts or stops when no slave holds the data line low",
               "an address or offset byte cut short may or may not have been taken for the offset"]


class Pads:
    pass


def contents(kind, size):
    if kind == "default":
        from litevideo.input.edid import _default_edid
        return list(_default_edid)
    g = rng("edid", kind, size)
    return [int(x) for x in g.integers(0, 256, size)]


def key(cfg):
    return ",".join("{}={}".format(k, cfg[k]) for k in sorted(cfg))


def dut(cfg):
    from migen import Signal, Module

    def make():
        from litevideo.input.edid import EDID
        p = Pads()
        p.scl = Signal()
        p.sda = Signal()
        if cfg["pupd"]:
            p.sda_pu, p.sda_pd = Signal(), Signal()
        if cfg["inv"]:
            p.scl.inverted = True
            if cfg["pupd"]:
                p.sda.inverted = True
        if cfg["en"]:
            p.hpd_en = Signal()
        if cfg["notif"]:
            p.hpd_notif = Signal()
            if cfg["notif"] == 2:
                p.hpd_notif.inverted = True
        if cfg.get("via"):
            # the slave of a complete input
            from litevideo.input import HDMIIn
            for n in ("clk", "data0", "data1", "data2"):
                setattr(p, n + "_p", Signal())
                setattr(p, n + "_n", Signal())
            kw = {} if cfg["mem"] == "default" else dict(default_edid=contents(cfg["mem"], cfg["size"]))
            x = HDMIIn(p, None, device=cfg["via"], **kw).edid
        elif cfg["mem"] == "default":
            x = EDID(p)
        else:
            x = EDID(p, contents(cfg["mem"], cfg["size"]))
        m = WithBank(x)
        d = m.ports(Design(m, ["sys"]))
        if cfg.get("soft"):
            # the contents on the CSR bus, as a SoC maps the memories of a peripheral
            from litex.soc.interconnect import csr_bus
            mems = x.get_memories()
            if len(mems) != 1:
                raise HarnessError("{} memories".format(len(mems)))
            m.submodules.ram = ram = csr_bus.SRAM(mems[0][-1] if isinstance(mems[0], tuple) else mems[0], 1, bus=csr_bus.Interface(data_width=32, address_width=14))
            m.comb += [ram.bus.adr.eq(m.bus.adr), ram.bus.we.eq(m.bus.we), ram.bus.dat_w.eq(m.bus.dat_w)]
        scl, sda, drv, drv1, notif = Signal(), Signal(), Signal(), Signal(), Signal()
        if cfg["inv"]:
            m.comb += p.scl.eq(~scl)
        else:
            m.comb += p.scl.eq(scl)
        if cfg["pupd"]:
            bus = Signal()
            m.comb += [drv.eq(p.sda_pd), drv1.eq(p.sda_pu), bus.eq(sda & ~drv), p.sda.eq(~bus if cfg["inv"] else bus)]
        else:
            def late(L, dd):
                t = [t for t in L.tristates if t.target is p.sda]
                if len(t) != 1:
                    raise HarnessError("tristate buffer of the data line not found")
                L.f.comb += [drv.eq(t[0].oe & ~t[0].o), drv1.eq(t[0].oe & t[0].o), t[0].i.eq(sda & ~drv)]
            d.late.append(late)
        if cfg["notif"]:
            m.comb += p.hpd_notif.eq(~notif if cfg["notif"] == 2 else notif)
        for n, s in (("scl", scl), ("sda", sda), ("drv", drv), ("drv1", drv1), ("notif", notif)):
            d.port(n, s)
        if cfg["en"]:
            d.port("hpd_en", p.hpd_en)
        return d
    return sim("edid," + key(cfg), make)


class Bus:
    """master: builds the wave form and what the slave must do in each bit"""

    def __init__(self, mem, g, tmin, tmax, enabled):
        self.mem = mem
        self.g = g
        self.t = [tmin, tmax]
        self.seg = []            # (scl, sda, clocks)
        self.now = 0
        self.checks = []         # (from, to, kind) of clock-high phases
        self.en = enabled
        self.events = []         # (clock, enable)
        self.pokes = []          # (clock, address, value)
        self.mode = "idle"
        self.active = False
        self.bytes_read = self.acks = 0

    def d(self):
        return int(self.g.integers(self.t[0], self.t[1] + 1))

    def put(self, scl, sda, n=None):
        n = self.d() if n is None else n
        self.seg.append((scl, sda, n))
        self.now += n

    def idle(self, n):
        self.put(1, 1, n)

    def start(self):
        if self.active:
            # repeated: the clock is low
            self.put(0, 1)
            t = self.now
            self.put(1, 1)
            self.checks.append((t, self.now, "rel"))
        else:
            self.put(1, 1)
        t = self.now
        self.put(1, 0)
        self.checks.append((t, self.now, "rel"))
        self.put(0, 0)
        self.active = True

    def stop(self):
        if not self.active:
            return
        self.put(0, 0)
        t = self.now
        self.put(1, 0)
        self.put(1, 1)
        self.checks.append((t, self.now, "rel"))
        self.active = False

    def bit(self, b, kind):
        self.put(0, b)
        if self.g.integers(0, 4) == 0:
            self.put(0, b)
        t = self.now
        self.put(1, b)
        self.checks.append((t, self.now, kind))
        self.put(0, b if kind == "rel" else 1)

    def enable(self, v, clk):
        """a register write at this point (clock low, data stable)"""
        self.put(clk, self.seg[-1][1] if self.seg else 1, 70)
        self.events.append((self.now, v))
        self.put(clk, self.seg[-1][1], 140)
        if not v:
            self.en = 0
            self.mode = "idle"
        else:
            self.en = 1


def known(log, mem):
    """the offset, if it is certain"""
    o = 0
    for e in log:
        if e[0] == "offset":
            o = e[1][0] % len(mem)
        elif e[0] in ("maybe", "cut"):
            o = None
        elif e[0] == "byte" and o is not None:
            o = (o + 1) % len(mem)
    return o


def build(case, mem):
    """the wave form; the slave's model works on symbolic offsets resolved when checking"""
    g = rng("c27", case["seed"])
    cfg = case["cfg"]
    b = Bus(mem, g, case["t"][0], case["t"][0] + case["t"][1], 0 if cfg["en"] else 1)
    mem = list(mem)
    log = []           # ("mem", contents) | ("offset", {values}) | ("abort",) | ("byte", [8 windows]) | ("partial", windows)
    b.idle(300)

    for op in case["ops"]:
        k = op[0]
        if k == "en":
            if cfg["en"]:
                b.enable(op[1], 0 if b.active else 1)
        elif k == "idle":
            if not b.active:
                b.idle(op[1])
        elif k == "poke":
            # software writes bytes while the bus is idle
            b.stop()
            b.idle(100)
            for j, (o, v) in enumerate(op[1]):
                b.pokes.append((b.now + j, o % len(mem), v))
                mem[o % len(mem)] = v
            b.idle(len(op[1]) + 200)
            log.append(("mem", list(mem)))
        elif k == "stop":
            b.stop()
            b.mode = "idle"
        elif k == "other":
            # traffic between the master and another device
            b.start()
            b.mode = "idle"
            a = op[1] if op[1] >> 1 != ADDR else op[1] ^ 0x02
            for x in [a] + list(op[2]):
                for i in range(8):
                    b.bit(x >> (7 - i) & 1, "rel")
                b.bit(int(g.integers(0, 2)), "rel")
        elif k == "write":
            # offset, then bytes the slave does not take
            b.start()
            n = op[3]                # bits sent in all, -1: no limit
            sent = 0
            mode = "addr"
            for x in [ADDR << 1] + list(op[1]):
                full = True
                for i in range(8):
                    if sent == n:
                        full = False
                        break
                    b.bit(x >> (7 - i) & 1, "rel")
                    sent += 1
                if not full:
                    if mode == "offset" and i >= 7 and b.en:
                        log.append(("maybe", [(x & 0xfe) | 0, (x & 0xfe) | 1]))
                    break
                if mode == "addr":
                    ack = b.en
                    mode = "offset" if b.en else "none"
                elif mode == "offset":
                    ack = b.en
                    if b.en:
                        log.append(("offset", [x]))
                    mode = "none"
                else:
                    ack = 0
                if op[2] and sent >= op[2] and b.en and cfg["en"]:
                    # hot plug is disabled before the acknowledge
                    b.enable(0, 0)
                    ack = 0
                    mode = "none"
                b.bit(1, "ack" if ack else "rel")
                b.acks += bool(ack)
        elif k == "read":
            b.start()
            mode = "addr"
            x = ADDR << 1 | 1
            for i in range(8):
                b.bit(x >> (7 - i) & 1, "rel")
            b.bit(1, "ack" if b.en else "rel")
            if not b.en:
                for i in range(9*op[1]):
                    b.bit(1, "rel")
            else:
                b.acks += 1
                for j in range(op[1]):
                    w = []
                    cut = None
                    for i in range(8):
                        if op[2] and cfg["en"] and 1 + j*9 + i == op[2] and b.en:
                            b.enable(0, 0)
                            cut = i
                        b.bit(1, "any" if b.en else "rel")
                        if b.en:
                            w.append(len(b.checks) - 1)
                    log.append(("byte", w) if cut is None and b.en else ("part", w))
                    if cut is not None:
                        b.bit(1, "rel")
                        for i in range(op[3]):
                            b.bit(int(g.integers(0, 2)), "rel")
                        break
                    if not b.en:
                        break
                    last = j == op[1] - 1
                    b.bit(1 if last else 0, "rel")
                    b.bytes_read += 1
        elif k == "abort":
            # a read given up in the middle of a byte, where the data line is high
            if not b.en or known(log, mem) is None:
                continue
            o = known(log, mem)
            cut = [i for i in range(op[1], 8) if mem[o] >> (7 - i) & 1]
            b.start()
            x = ADDR << 1 | 1
            for i in range(8):
                b.bit(x >> (7 - i) & 1, "rel")
            b.bit(1, "ack")
            w = []
            for i in range(cut[0] if cut else 8):
                b.bit(1, "any")
                w.append(len(b.checks) - 1)
            if cut:
                log.append(("part", w))
                log.append(("cut",))
            else:
                log.append(("byte", w))
                b.bit(1, "rel")
            b.start()
            b.stop()
    b.stop()
    b.idle(300)
    return b, log


def fn(case):
    cfg = case["cfg"]
    mem = contents(cfg["mem"], cfg["size"])
    b, log = build(case, mem)
    s = dut(cfg)
    n = b.now
    a = np.repeat(np.array([(x[0], x[1]) for x in b.seg], dtype=np.uint64), [x[2] for x in b.seg], axis=0)
    pl = Play(s.design.csr)
    for e in sorted([x + (None,) for x in b.events] + b.pokes, key=lambda e: e[0]):
        pl.idle(max(0, e[0] - pl.now()))
        if e[2] is None:
            pl.wr("hpd_en", e[1])
        else:
            pl.rows.append((512 + e[1], 1, e[2]))
    g = rng("n", case["seed"])
    notif = np.zeros(n, dtype=np.uint64)
    v = 0
    for t in np.sort(g.integers(0, n, 6)):
        v ^= 1
        notif[t:] = v
    rds = []
    base = pl.now()
    for t in range(base + 10, n - 10, max(211, n//40)):
        pl.idle(t - pl.now())
        pl.rd("hpd_notif")
    outs = ["drv", "drv1"] + (["hpd_en"] if cfg["en"] else [])
    r = s.run(n, pl.bfms("sys") + [
        dict(kind="play", dom="sys", p=["scl", "sda"], a=a),
        dict(kind="play", dom="sys", p=["notif"], a=notif[:, None]),
        dict(kind="rec", dom="sys", name="o", p=outs)], clock="sys")
    o = r.by["o"].log[:, 1:].astype(np.int64)
    drv = o[:, 0]
    if o[:, 1].any():
        raise Violation("the slave drives the data line high at clock {}".format(int(np.flatnonzero(o[:, 1])[0])))
    # hot-plug
    if cfg["en"]:
        en = np.zeros(n, dtype=int)
        for t, v in b.events:
            en[t:] = v
        off = en == 0
        for t, v in b.events:
            off[t:t + 6] = False
        w = np.flatnonzero(off & (drv == 1))
        if len(w):
            raise Violation("the slave drives the bus at clock {} although hot-plug is disabled".format(int(w[0])))
        amb = np.zeros(n, dtype=bool)
        for t, v in b.events:
            amb[t:t + 6] = True
        w = np.flatnonzero(~amb & (o[:, 2] != en))
        if len(w):
            raise Violation("hot-plug pad is {} at clock {}, programmed {}".format(int(o[w[0], 2]), int(w[0]), int(en[w[0]])))
    for name, t, v in pl.results(r):
        ok = {1} if not cfg["notif"] else set(int(x) for x in notif[max(0, t - 6):t + 1])
        if v not in ok:
            raise Violation("hpd_notif reads {} at clock {}, the pad is {}".format(v, t, sorted(ok)))
    # bits
    val = []
    for t0, t1, kind in b.checks:
        x = drv[t0:t1]
        if (x != x[0]).any():
            raise Violation("the slave changes the data line while the clock is high (clock {})".format(t0 + int(np.flatnonzero(x != x[0])[0])))
        val.append(1 - int(x[0]))
        if kind == "rel" and x[0]:
            raise Violation("the slave drives the data line in a bit of the master or of another device (clock {})".format(t0))
        if kind == "ack" and not x[0]:
            raise Violation("own address or offset not acknowledged (clock {})".format(t0))
    # bytes
    size = len(mem)
    cand = {0}
    for e in log:
        if e[0] == "mem":
            mem = e[1]
        elif e[0] == "offset":
            cand = {e[1][0] % size}
        elif e[0] == "maybe":
            cand = cand | {x % size for x in e[1]}
        elif e[0] == "part":
            got = [val[i] for i in e[1]]
            c = {x for x in cand if all(mem[x] >> (7 - i) & 1 == q for i, q in enumerate(got))}
            if not c:
                raise Violation("the first bits of a byte read at offset {} are {}, expected {:#x}".format(sorted(cand)[:8], got, mem[sorted(cand)[0]]))
            cand = c
        elif e[0] == "cut":
            cand = cand | {(x + 1) % size for x in cand}
        elif e[0] == "byte":
            got = 0
            for i in e[1]:
                got = got << 1 | val[i]
            c = {x for x in cand if mem[x] == got}
            if not c:
                raise Violation("byte read at offset {} is {:#04x}, stored {}".format(
                    sorted(cand)[:8], got, [hex(mem[x]) for x in sorted(cand)[:8]]))
            cand = {(x + 1) % size for x in c}
    return Info(nontrivial=b.bytes_read > 0, evals=len(b.checks),
                labels=["bytes{}".format(min(50, b.bytes_read//10*10)), "en" if cfg["en"] else "always on", "other" if any(x[0] == "other" for x in case["ops"]) else "alone"])


byte = st.one_of(st.sampled_from([0xa0, 0xa1, 0x00, 0x7f, 0x80, 0xff, 0xfe]), st.integers(0, 255))
other = st.tuples(st.just("other"), st.one_of(st.sampled_from([0xa2, 0xa3, 0x60, 0x20, 0x21, 0xe0, 0x50, 0x51, 0x28, 0xb0, 0x80]), st.integers(0, 255)), st.lists(byte, max_size=4))
write = st.tuples(st.just("write"), st.lists(byte, min_size=1, max_size=3), st.sampled_from([0, 0, 0, 0, 8, 16]), st.sampled_from([-1, -1, -1, 3, 7, 10, 15]))
read = st.tuples(st.just("read"), st.integers(1, 12), st.sampled_from([0, 0, 0, 0, 0, 1, 2, 5, 9, 12, 17]), st.integers(0, 12))
wr = st.tuples(write.map(lambda w: ("write", w[1][:1], 0, -1)), read.map(lambda r: ("read", r[1], 0, 0))).map(list)
one = st.one_of(st.tuples(st.just("abort"), st.integers(0, 7)), other, write, read, st.just(("stop",)), st.tuples(st.just("idle"), st.integers(1, 400)), st.tuples(st.just("en"), st.integers(0, 1)))
ops = st.lists(st.one_of(one.map(lambda x: [x]), wr, wr, wr.map(lambda x: [("en", 1), x[0], ("stop",), x[1], ("stop",)])), min_size=1, max_size=6).map(lambda l: [("en", 1)] + [y for x in l for y in x])
CFGS = [dict(dict(pupd=p, inv=i, en=e, notif=n, mem=m, size=z), **v) for p, i, e, n, m, z, v in (
    (0, 0, 1, 1, "default", 256, {}), (1, 0, 1, 2, "a", 128, {}), (1, 1, 1, 1, "b", 256, {}), (0, 0, 0, 0, "c", 128, {}), (0, 1, 1, 2, "d", 256, {}),
    (1, 1, 0, 0, "e", 256, {}), (0, 0, 1, 1, "default", 256, {"via": "xc7"}), (1, 0, 1, 2, "f", 128, {"via": "xc6"}), (0, 1, 1, 1, "h", 256, {"via": "xc7"}), (0, 0, 1, 1, "k", 512, {}))]
cases = st.fixed_dictionaries({"seed": st.integers(0, 2**16), "cfg": st.sampled_from(CFGS), "t": st.tuples(st.integers(TMIN, 130), st.integers(0, 60)), "ops": ops})

poke = st.tuples(st.just("poke"), st.lists(st.tuples(byte, st.integers(0, 255)), min_size=1, max_size=40))
SOFT = [dict(c, soft=1) for c in CFGS]
rewritten = st.fixed_dictionaries({"seed": st.integers(0, 2**16), "cfg": st.sampled_from(SOFT), "t": st.tuples(st.integers(TMIN, 130), st.integers(0, 60)),
                                   "ops": st.tuples(poke, ops, st.lists(st.tuples(poke, ops), max_size=1)).map(lambda t: [("en", 1), t[0]] + t[1] + [y for x in t[2] for y in [x[0]] + x[1]])})


def whole(case):
    """the complete contents, in one go and from random offsets"""
    cfg = CFGS[case["cfg"]]
    g = rng("whole", case["seed"])
    ops = [("en", 1), ("write", [case["off"]], 0, -1), ("read", case["n"], 0, 0), ("stop",), ("read", 3, 0, 0), ("stop",)]
    r = fn({"seed": case["seed"], "cfg": cfg, "t": (TMIN, 20), "ops": ops})
    if cfg["mem"] == "default" and case["n"] > 256:
        # what has just been read completely
        m = contents("default", 256)
        if m[:8] != [0] + [255]*6 + [0]:
            raise Violation("the default contents do not start with the EDID header: {}".format(m[:8]))
        if m[126] != len(m)//128 - 1:
            raise Violation("the default contents announce {} extension blocks, there are {}".format(m[126], len(m)//128 - 1))
        for k in range(0, len(m), 128):
            if sum(m[k:k + 128]) % 256:
                raise Violation("the checksum of block {} of the default contents is wrong".format(k//128))
    return r


def subs(tier):
    w = [{"cfg": c, "seed": 10*c + i, "off": o, "n": n} for c in range(len(CFGS)) for i, (o, n) in enumerate(((0, CFGS[c]["size"] + 4 if CFGS[c]["size"] > 256 else 260), (0xf8, 20), (0x7c, 12)))]
    return [Sub("transactions", fn, strategy=cases, quick=300, thorough=6000,
                rule="generated I2C transaction histories (own reads and writes, other devices' traffic, cut bytes, hot-plug toggles); non-trivial = at least one byte read"),
            Sub("rewritten", fn, strategy=rewritten, quick=100, thorough=3000,
                rule="as transactions, with the contents rewritten over the CSR bus between them; non-trivial = at least one byte read"),
            Sub("whole", whole, cases=w, rule="complete contents and wrap-around, every pad configuration")]
