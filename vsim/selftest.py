"""Differential fuzz of the compiler against Migen's evaluator on random designs.
usage: selftest.py N SEED"""
import random
import sys
import os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
from migen import *
from migen.fhdl.structure import _Part
from migen.fhdl.specials import READ_FIRST, NO_CHANGE, WRITE_FIRST
from vsim.sim import Sim, Design, HarnessError
from vsim.codegen import Unsupported
from vsim import refsim


def gen(seed):
    r = random.Random(seed)
    m = Module()
    doms = ["a", "b"][:r.choice([1, 2])]
    for dn in doms:
        cd = ClockDomain(dn, reset_less=r.random() < .5)
        m.clock_domains += cd
    d = Design(m, doms)

    def rs(signed=None):
        w = r.choice([1, 1, 2, 3, 7, 8, 16, 31, 32, 33, 40, 63, 64]) if r.random() < .9 else r.choice([65, 100, 128, 130])
        s = r.random() < .3 if signed is None else signed
        if s and w == 1:
            w = 2
        lo = -(1 << w - 1) if s else 0
        hi = (1 << w - 1) - 1 if s else (1 << w) - 1
        return Signal((w, s), reset=r.choice([0, 0, r.randint(lo, hi)]))
    inputs = [rs() for _ in range(r.randint(2, 5))]
    regs = {dn: [rs() for _ in range(r.randint(1, 4))] for dn in doms}
    if r.random() < .5:
        arr_regs = [rs() for _ in range(r.randint(2, 4))]
        regs[doms[0]] += arr_regs
    else:
        arr_regs = None
    avail = inputs + sum(regs.values(), [])
    combs = []

    def expr(depth):
        k = r.random()
        if depth == 0 or k < .2:
            if r.random() < .15:
                return C(r.randint(-300, 300)) if r.random() < .5 else C(r.randint(0, 1 << 70))
            return r.choice(avail)
        e = lambda: expr(depth - 1)
        k = r.randint(0, 13)
        if k == 0: return e() + e()
        if k == 1: return e() - e()
        if k == 2:
            a, b = e(), e()
            if len(a) + len(b) < 400: return a*b
            return a
        if k == 3: return r.choice([lambda a, b: a & b, lambda a, b: a | b, lambda a, b: a ^ b])(e(), e())
        if k == 4: return ~e()
        if k == 5: return -e()
        if k == 6:
            import operator
            return r.choice([operator.lt, operator.le, operator.eq, operator.ne, operator.gt, operator.ge])(e(), e())
        if k == 7: return Mux(e(), e(), e())
        if k == 8:
            a = e()
            n = len(a)
            if n < 1: return a
            x = r.randint(0, n - 1)
            y = r.randint(x + 1, n)
            return a[x:y]
        if k == 9: return Cat(*[e() for _ in range(r.randint(1, 3))])
        if k == 10:
            a = e()
            return Replicate(a, r.randint(1, 3)) if len(a) < 100 else a
        if k == 11:
            a, b = e(), e()
            sh = Signal(r.randint(1, 6))
            m.comb += sh.eq(b)
            return r.choice([lambda x, y: x >> y, lambda x, y: x << y])(a, sh)
        if k == 12:
            kx = Signal(r.randint(1, 3))
            m.comb += kx.eq(e())
            return Array([e() for _ in range(r.randint(1, 6))])[kx]
        if k == 13:
            a = e()
            off = Signal(r.randint(1, 5))
            m.comb += off.eq(e())
            return _Part(a, off, r.randint(1, 20))
        return e()

    def stmts(targets, depth, sync=False):
        l = []
        for _ in range(r.randint(1, 3)):
            k = r.random()
            if depth > 0 and k < .25:
                s = If(expr(2), *stmts(targets, depth - 1, sync))
                if r.random() < .5:
                    s = s.Elif(expr(1), *stmts(targets, depth - 1, sync))
                if r.random() < .5:
                    s = s.Else(*stmts(targets, depth - 1, sync))
                l.append(s)
            elif depth > 0 and k < .4:
                t = expr(1)
                cases = {r.randint(0, 7): stmts(targets, depth - 1, sync) for _ in range(r.randint(1, 3))}
                if r.random() < .5:
                    cases["default"] = stmts(targets, depth - 1, sync)
                l.append(Case(t, cases))
            else:
                t = r.choice(targets)
                q = r.random()
                if q < .3 and len(t) > 1:
                    x = r.randint(0, len(t) - 1)
                    y = r.randint(x + 1, len(t))
                    t = t[x:y]
                elif q < .4 and len(targets) > 1:
                    a, b = r.sample(targets, 2)
                    t = Cat(a, b)
                    if r.random() < .3:
                        t = t[1:len(t)]
                elif q < .5 and len(targets) > 1:
                    kx = Signal(2)
                    m.comb += kx.eq(expr(1))
                    t = Array(r.sample(targets, 2))[kx]
                elif q < .55 and sync:
                    off = Signal(3)
                    m.comb += off.eq(expr(1))
                    t = _Part(t, off, r.randint(1, 8))
                l.append(t.eq(expr(2)))
        return l
    for _ in range(r.randint(1, 6)):
        t = rs()
        m.comb += stmts([t], 2)
        avail = avail + [t]
        combs.append(t)
    if r.random() < .5:
        w = r.choice([8, 32, 64, 100])
        mem = Memory(w, r.choice([4, 5, 16]), init=[r.randint(0, (1 << w) - 1) for _ in range(r.randint(0, 4))])
        m.specials += mem
        for _ in range(r.randint(1, 2)):
            dn = r.choice(doms)
            wc = r.random() < .7
            p = mem.get_port(write_capable=wc, async_read=r.random() < .3, has_re=r.random() < .3,
                             we_granularity=8 if w != 100 and r.random() < .4 else 0,
                             mode=r.choice([READ_FIRST, WRITE_FIRST, NO_CHANGE]), clock_domain=dn)
            m.specials += p
            m.comb += p.adr.eq(expr(1))
            if wc:
                m.comb += p.we.eq(expr(1)), p.dat_w.eq(expr(2))
            if p.re is not None:
                m.comb += p.re.eq(expr(1))
            combs.append(p.dat_r)
    for dn in doms:
        m.sync += [] if False else []
        getattr(m.sync, dn).__iadd__(stmts(regs[dn], 2)) if False else None
        s = getattr(m.sync, dn)
        s += stmts(regs[dn], 2, True)
    for i, s in enumerate(inputs):
        d.inp("i{}".format(i), s)
    n = 0
    for s in combs + sum(regs.values(), []):
        d.out("o{}".format(n), s)
        n += 1
    return d


def one(seed):
    make = lambda: gen(seed)
    try:
        s = Sim(make, opt="-O0")
    except Unsupported as e:
        return "unsupported"
    except (ValueError, TypeError, SyntaxError) as e:
        return "gen"
    if s.cg.loops:
        return "loop"
    rng = np.random.default_rng(seed)
    T = 25
    ins = [n for n in s.pnames if n.startswith("i")]
    outs = [n for n in s.pnames if n.startswith("o")]
    a = rng.integers(0, 2**64, (T, len(ins)), dtype=np.uint64)
    a[rng.random(a.shape) < .3] &= np.uint64(3)
    mask = rng.integers(0, 1 << len(s.domains), T).astype(np.uint32)
    r = s._run(T, [dict(kind="play", p=ins, a=a), dict(kind="rec", p=outs, name="r")], mask=mask, trace=True)
    l = r.by["r"].log
    refsim.replay(s, r, {n: (l[:, 0], l[:, 1 + i]) for i, n in enumerate(outs)})
    return "ok"


if __name__ == "__main__":
    import collections
    import tempfile
    import shutil
    import vsim.sim
    N = int(sys.argv[1])
    S = int(sys.argv[2])
    tmp = tempfile.mkdtemp()
    vsim.sim.CACHE = tmp
    c = collections.Counter()
    for i in range(N):
        try:
            c[one(S + i)] += 1
        except Exception as e:
            print("FAIL seed", S + i, type(e).__name__, str(e)[:300])
            c["fail"] += 1
            if c["fail"] > 8:
                break
    shutil.rmtree(tmp)
    print(dict(c))
    sys.exit(1 if c["fail"] else 0)
