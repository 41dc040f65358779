"""A CSR bus in front of a module, and play lists of bus accesses."""
import numpy as np
from migen import Module
from litex.soc.interconnect import csr_bus

from vsim.sim import HarnessError


def _norm(n):
    return n.lstrip("_")


class WithBank(Module):
    def __init__(self, dut, data_width=32, csrs=None):
        self.submodules.dut = dut
        csrs = dut.get_csrs() if csrs is None else csrs
        bus = csr_bus.Interface(data_width=data_width, address_width=14)
        self.submodules.bank = csr_bus.CSRBank(csrs, bus=bus)
        self.bus = bus
        self.data_width = data_width
        self.map = {}
        pos = {id(c): i for i, c in enumerate(self.bank.simple_csrs)}
        for c in csrs:
            sc = c.get_simple_csrs() if hasattr(c, "get_simple_csrs") else [c]
            self.map[_norm(c.name)] = ([pos[id(x)] for x in sc], c.size)

    def find(self, name):
        """the register of this name (or the only one ending with it)"""
        if name in self.map:
            return self.map[name]
        r = [k for k in self.map if k.endswith("_" + name)]
        if len(r) != 1:
            raise HarnessError("register {}: {}".format(name, sorted(self.map)))
        return self.map[r[0]]

    def ports(self, d):
        d.port("csr_adr", self.bus.adr)
        d.port("csr_we", self.bus.we)
        d.port("csr_dat_w", self.bus.dat_w)
        d.port("csr_dat_r", self.bus.dat_r)
        d.csr = self
        return d


class Play:
    """one access per clock; build with wr/rd/idle, then .bfms(dom)"""

    def __init__(self, bank):
        self.b = bank
        self.rows = []
        self.reads = []      # (name, index of the row with each part of the result)

    def now(self):
        return len(self.rows)

    def idle(self, n=1):
        self.rows += [(0x3fff, 0, 0)]*n
        return self

    def wr(self, name, value):
        adr, size = self.b.find(name)
        w = self.b.data_width
        n = len(adr)
        for i, a in enumerate(adr):
            self.rows.append((a, 1, (value >> (w*(n - 1 - i))) & (2**w - 1)))
        return self

    def rd(self, name):
        adr, size = self.b.find(name)
        at = []
        for a in adr:
            self.rows.append((a, 0, 0))
            at.append(len(self.rows))       # dat_r is visible one clock later
        self.reads.append((name, at))
        return self

    def bfms(self, dom="sys"):
        # idle for ever after the list
        rows = self.rows + [(0x3fff, 0, 0)]
        return [dict(kind="play", dom=dom, name="csr", p=["csr_adr", "csr_we", "csr_dat_w"],
                     a=np.array(rows, dtype=np.uint64)),
                dict(kind="rec", dom=dom, name="csr_r", p=["csr_dat_r"])]

    def results(self, res):
        """[(name, clock index, value)]; res: Result of a run with our bfms"""
        log = res.by["csr_r"].log
        w = self.b.data_width
        out = []
        for name, at in self.reads:
            if at[-1] >= len(log):
                break
            v = 0
            for k in at:
                v = (v << w) | int(log[k, 1])
            out.append((name, at[-1], v))
        return out
