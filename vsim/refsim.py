"""Replays a recorded input trace on Migen's own evaluator (reference)."""
import time

import numpy as np
from migen.fhdl.structure import *
from migen.fhdl.tools import list_targets
from migen.sim.core import Evaluator
from .lower import lower, _flat
from .codegen import CodeGen


class RefMismatch(Exception):
    pass


def _targets(L):
    # migen's list_targets() does not see through part selects
    cg = CodeGen(L)
    r = set()
    for s in _flat(L.f.comb):
        r |= cg.targets_of(s)
    return r


def replay(sim, result, watch, max_steps=None, budget_s=30.0):
    """watch: {port name: (steps array, values array)} as observed by the
    compiled simulator.  Compares them to Migen's evaluator for as many
    steps as the budget allows.  Returns the number of steps compared."""
    d = sim.make()
    L = lower(d.module, extra_domains=d.domains, native_mem=False)
    for fn in d.late:
        fn(L, d)
    f = L.f
    comb = [s.eq(s.reset) for s in sorted(_targets(L), key=lambda x: x.duid)] + list(f.comb)
    ev = Evaluator(f.clock_domains, L.mem_repl)
    nm = result.trace_names
    # the evaluator indexes by duid: grow for signals created since
    from migen.fhdl.structure import DUID
    ev.signal_values = [None]*DUID.get_max_duid()
    sigs = [d.ports[n] for n in nm]

    def settle():
        for _ in range(400):
            ev.execute(comb)
            if not ev.commit_changed():
                return
        raise RefMismatch("no comb fixpoint")
    expect = {}
    for n, (steps, vals) in watch.items():
        expect[n] = dict(zip([int(x) for x in steps], [int(v) for v in vals]))
    t0 = time.time()
    n = len(result.mask)
    if max_steps is not None:
        n = min(n, max_steps)
    doms = sim.domains
    last = None
    settle()
    for t in range(n):
        row = result.trace[t]
        for s, v in zip(sigs, row):
            v = int(v) & ((1 << s.nbits) - 1)
            if s.signed and v >> (s.nbits - 1):
                v -= 1 << s.nbits
            ev.modifications[s.duid] = v
        if ev.commit_changed():
            settle()
        for name, ex in expect.items():
            if t in ex:
                s = d.ports[name]
                v = ev.eval(s) & ((1 << s.nbits) - 1)
                w = ex[t] & ((1 << s.nbits) - 1)
                if v != w:
                    raise RefMismatch("step {} port {}: compiled {:#x}, migen {:#x}".format(t, name, w, v))
        mk = int(result.mask[t])
        for i, dn in enumerate(doms):
            if mk >> i & 1 and dn in f.sync:
                ev.execute(f.sync[dn])
        if ev.commit_changed():
            settle()
        if time.time() - t0 > budget_s:
            return t + 1
    return n
