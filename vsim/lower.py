"""Lowering of a Migen module to a plain fragment both simulators accept.

* vendor primitives (Instance) and non-record Tristates cannot be simulated:
  they are replaced by *stubs*: every input expression gets a probe signal
  (comb-driven by the expression), every output expression is driven by a free
  "drive" signal which the harness may set (or leave at 0).
* AsyncResetSynchronizer becomes the combinational model of Migen's simulator.
* Mux conditions are masked to their width (Migen's evaluator forgets to do it,
  Verilog does it).
"""
from migen.fhdl.structure import *
from migen.fhdl.structure import (_Operator, _Slice, _Part, _ArrayProxy,
                                  _Assign, _Fragment, _Value)
from migen.fhdl.bitcontainer import value_bits_sign
from migen.fhdl.specials import Instance, Tristate, Memory, _MemoryPort
from migen.fhdl.tools import (lower_specials, insert_resets, list_clock_domains,
                              list_targets, list_signals)
from migen.fhdl.simplify import MemoryToArray
from migen.fhdl.visit import NodeTransformer
from migen.genlib.resetsync import AsyncResetSynchronizer
from migen.sim.core import DummyAsyncResetSynchronizer


class InstanceStub:
    """of: primitive name; i/o: dict port -> Signal (probe / drive); params"""
    def __init__(self, inst):
        self.of = inst.of
        self.name = inst.name_override
        self.i = {}
        self.o = {}
        self.params = {}
        self.inst = inst
        # original expressions, so the harness can match on what is connected
        self.i_expr = {}
        self.o_expr = {}
        self.io_expr = {}
        for it in inst.items:
            if isinstance(it, Instance.Parameter):
                v = it.value
                self.params[it.name] = v.value if isinstance(v, Constant) else v


class TristateStub:
    def __init__(self, ts):
        self.target = ts.target
        self.o = Signal(len(ts.o) if len(ts.o) else 1)
        self.oe = Signal()
        self.i = Signal(max(1, len(ts.o)))


class _MuxMask(NodeTransformer):
    def visit_Operator(self, node):
        ops = [self.visit(o) for o in node.operands]
        if node.op == "m":
            c = ops[0]
            n, s = value_bits_sign(c)
            if isinstance(c, _Operator):
                c = _Slice(c, 0, n)
            ops[0] = c
        elif node.op in (">>>", "<<<"):
            # a shift amount is read as an unsigned number (Verilog); Migen's
            # evaluator raises on negative amounts
            n, s = value_bits_sign(ops[1])
            if s:
                ops[1] = _Slice(ops[1], 0, n)
        return _Operator(node.op, ops)


class Lowered:
    pass


def _is_clock_expr(e):
    return isinstance(e, (ClockSignal, ResetSignal))


def lower(module, extra_domains=(), native_mem=True):
    """extra_domains: domain names the environment provides (created reset-able
    if the module does not define them).  Returns a Lowered object."""
    if isinstance(module, _Fragment):
        f = module
    else:
        # The clock domains a design expects from its platform.
        f = module.get_fragment()
    L = Lowered()
    L.instances = []
    L.tristates = []

    known = {cd.name for cd in f.clock_domains}
    overrides = {AsyncResetSynchronizer: DummyAsyncResetSynchronizer}

    # stub out instances and tristates
    drv = []
    driven_cd_clk = set()
    for sp in sorted(list(f.specials), key=lambda x: x.duid):
        if isinstance(sp, Instance):
            st = InstanceStub(sp)
            for it in sp.items:
                if isinstance(it, Instance.Input):
                    st.i_expr[it.name] = it.expr
                    n, s = value_bits_sign(it.expr)
                    p = Signal((max(n, 1), s), name_override="stub_i_" + it.name)
                    st.i[it.name] = p
                    drv.append(p.eq(it.expr))
                elif isinstance(it, Instance.Output):
                    st.o_expr[it.name] = it.expr
                    n, s = value_bits_sign(it.expr)
                    d = Signal(max(n, 1), name_override="stub_o_" + it.name)
                    st.o[it.name] = d
                    if not _is_clock_expr(it.expr):
                        drv.append(it.expr.eq(d))
                elif isinstance(it, Instance.InOut):
                    st.io_expr[it.name] = it.expr
            L.instances.append(st)
            f.specials.remove(sp)
        elif isinstance(sp, Tristate) and not sp._isrecord:
            st = TristateStub(sp)
            drv += [st.o.eq(sp.o), st.oe.eq(sp.oe)]
            if sp.i is not None:
                drv.append(sp.i.eq(st.i))
            L.tristates.append(st)
            f.specials.remove(sp)
    f.comb += drv

    f, _ = lower_specials(overrides, f)
    # lower_specials may have produced new memories? (not in this code base)
    L.memories = []
    L.memports = []
    for sp in sorted(list(f.specials), key=lambda x: x.duid):
        if isinstance(sp, Memory):
            L.memories.append(sp)
        elif isinstance(sp, _MemoryPort):
            L.memports.append(sp)
        else:
            raise NotImplementedError("special {}".format(sp))

    names = list_clock_domains(f) | set(extra_domains)
    for n in sorted(names):
        if n not in {cd.name for cd in f.clock_domains}:
            f.clock_domains.append(ClockDomain(name=n))
    for n in f.sync:
        pass
    for x in list_signals(f):
        # a reset value wider than its signal: what the generated Verilog loads
        v = x.reset.value & ((1 << x.nbits) - 1)
        if x.signed and v >> (x.nbits - 1):
            v -= 1 << x.nbits
        if v != x.reset.value:
            x.reset = Constant(v, (x.nbits, x.signed))
    insert_resets(f)
    # A clock domain reset does not clear memories: arrays are made after
    # the resets were inserted.
    L.mem_repl = None
    if not native_mem:
        mta = MemoryToArray()
        mta.transform_fragment(None, f)
        L.mem_repl = mta.replacements
        L.memories = []
        L.memports = []
    mm = _MuxMask()
    f.comb = [mm.visit(s) if not isinstance(s, (list, tuple)) else [mm.visit(x) for x in _flat(s)]
              for s in _flat(f.comb)]
    for k in list(f.sync):
        f.sync[k] = [mm.visit(s) for s in _flat(f.sync[k])]
    L.f = f
    L.cds = {cd.name: cd for cd in f.clock_domains}
    return L


def _flat(sl):
    r = []
    for s in sl:
        if isinstance(s, (list, tuple)):
            r += _flat(s)
        else:
            r.append(s)
    return r
