"""Designs with several inputs and outputs: one part is driven and checked, the others work on noise."""
import numpy as np
from migen import Module

from lib import hw
from lib.csr import WithBank
from vsim.sim import Sim, Design

SHARED = ("sys", "vbit", "base50", "clk100")
HERE = None             # the placement being used: a tuple of parts, None for the one under test
_sims = {}


def cd(name):
    """the name a clock domain of the part under test has in the whole design"""
    return name if HERE is None else "{}_{}".format(label(HERE.index(None)), name)


_others = []


def external():
    """the clocking of another output of the design, where they are shared"""
    if HERE is None or ("shared",) not in HERE:
        return None
    return next(x.dut.driver.clocking for n, s, x, q in _others if s[0] == "out")


def label(i):
    return "video{}".format(i)


def other(i, spec):
    """(part with its bank, signals the environment drives: memory side, wires)"""
    from litedram.common import LiteDRAMNativePort
    from checks import c15, c29
    from checks.c12 import DW
    n = label(i)
    if spec[0] == "in":
        from litevideo.input import HDMIIn
        dev, hd, mode, dw, inv = spec[1:]
        pads = c29.Pads(inv)
        port = LiteDRAMNativePort("write", c29.AW, dw)
        x = WithBank(HDMIIn(pads, port, device="xc{}".format(dev), mode=mode, hdmi=hd))
        drive = [("sys", port.cmd.ready), ("sys", port.wdata.ready)]
        drive += [("vbit", getattr(pads, "data{}_p".format(c))) for c in range(3)]
    else:
        from litevideo.output import VideoOut
        fam, mode, inv = spec[1:]
        pads = c15.Pads(inv)
        port = LiteDRAMNativePort("read", 24, DW[mode], n + "_pix")
        x = WithBank(VideoOut({6: "xc6slx45", 7: "xc7a35t"}[fam], pads, port, mode=mode))
        drive = [("pix", port.cmd.ready), ("pix", port.rdata.valid)]
    return x, drive


def fragment(m):
    m.finalize()
    return m._fragment


class View:
    """the part under test, as if it was alone"""

    def __init__(self, L, own, names):
        self.instances = [i for i in L.instances if i.inst in own]
        self.tristates = L.tristates
        self.orig = {cd.name: n for cd, n in names.items()}
        self.cds = {self.orig.get(n, n): c for n, c in L.cds.items() if n in self.orig or n in SHARED}
        self.f = self
        self.comb = L.f.comb
        self.sync = Sync(L.f.sync, {n: cd.name for cd, n in names.items()})


class Sync:
    def __init__(self, sync, names):
        self.s, self.n = sync, names

    def setdefault(self, k, v):
        return self.s.setdefault(self.n.get(k, k), v)

    def __getitem__(self, k):
        return self.s[self.n.get(k, k)]

    def __setitem__(self, k, v):
        self.s[self.n.get(k, k)] = v


class Placed(Sim):
    def __init__(self, make, place):
        def whole():
            global HERE
            before, HERE = HERE, place
            del _others[:]
            try:
                parts = [p for p in place if p != ("shared",)]
                for i, p in enumerate(parts):
                    if p is not None:
                        x, drive = other(i, p)
                        _others.append((label(i), p, x, drive))
                d = make()
                top = Module()
                for i, p in enumerate(parts):
                    x = d.module if p is None else next(q[2] for q in _others if q[0] == label(i))
                    setattr(top.submodules, label(i), x)
                names = {c: c.name for c in fragment(d.module).clock_domains}
                others = {c: c.name for q in _others for c in fragment(q[2]).clock_domains}
                own = set(fragment(d.module).specials)
                e = Design(top, [n for n in d.domains if n in SHARED])
                e.ports, e.wide, e.csr = d.ports, d.wide, d.csr
                e.drive = []
                for n, p, x, drive in _others:
                    bus = [("sys", x.bus.adr), ("sys", x.bus.we), ("sys", x.bus.dat_w)]
                    for k, (dom, s) in enumerate(bus + drive):
                        e.drive.append((n, dom, e.port("{}.{}".format(n, k), s), len(s), k))
                late = list(d.late)

                def last(L, e):
                    v = View(L, own, names)
                    for f in late:
                        f(v, e)
                e.late.append(last)
                e.names_ = names
                e.others = others
                return e
            finally:
                HERE = before
        Sim.__init__(self, whole)
        self.own = {n: c.name for c, n in self.design.names_.items()}
        # a clock of one part ticks in the others as well
        self.all = {}
        for m in (self.design.names_, self.design.others):
            for c, n in m.items():
                self.all.setdefault(n, []).append(c.name)

    def mask(self, doms):
        r = []
        for d in doms:
            r += [n for n in self.all.get(d, [d]) if n in self.dom_idx or d not in self.all]
        return Sim.mask(self, r)

    def run(self, nsteps, bfms, mask=None, clock=None):
        b = [dict(x, dom=self.own.get(x.get("dom"), x.get("dom"))) for x in bfms]
        g = np.random.default_rng(nsteps)
        for n, dom, p, w, k in self.design.drive:
            name = next((c.name for c, o in self.design.others.items() if o == dom and c.name.startswith(n)), dom)
            if name not in self.dom_idx:
                continue
            a = g.integers(0, 2**min(w, 62), 997, dtype=np.uint64)
            if k == 0:
                # mostly registers that exist
                a = a % np.uint64(64)
            b.append(dict(kind="play", dom=name, p=[p], a=a[:, None], cyclic=1))
        return Sim.run(self, nsteps, b, mask=mask, clock=clock)


def sim(key, make):
    if HERE is None:
        return hw.sim(key, make)
    k = (key, HERE)
    if k not in _sims:
        _sims[k] = Placed(make, HERE)
    return _sims[k]


def within(place, fn, case):
    global HERE
    before, HERE = HERE, place
    try:
        return fn(case)
    finally:
        HERE = before
