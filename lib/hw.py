"""Helpers shared by the checks."""
import functools

import numpy as np

from lib.pbt import Violation, Info, rng
from hypothesis import strategies as st     # lib.pbt makes it importable
from vsim.sim import Sim, Design, HarnessError

_sims = {}


def sim(key, make, **kw):
    """one compiled simulator per distinct design"""
    if key not in _sims:
        _sims[key] = Sim(make, **kw)
    return _sims[key]


def stream_ports(d, ep, prefix, fields, direction, control=("valid", "ready", "first", "last")):
    for n in control:
        d.port("{}_{}".format(prefix, n), getattr(ep, n))
    for f in fields:
        s = getattr(ep, f)
        if direction == "in":
            d.inp("{}_{}".format(prefix, f), s)
        else:
            d.out("{}_{}".format(prefix, f), s)


def stream_design(ctor, in_fields, out_fields, more=None):
    def make():
        m = ctor()
        d = Design(m)
        stream_ports(d, m.sink, "i", in_fields, "in")
        stream_ports(d, m.source, "o", out_fields, "out")
        if more is not None:
            more(d, m)
        return d
    return make


def stream_bfms(in_fields, out_fields, items, gaps=(), ready=(), junk=(), dom="sys", flags=True):
    """items: (n, len(in_fields)[+2]) array; with flags the last two columns are first, last"""
    fl = ["first", "last"] if flags else []
    return [
        dict(kind="src", dom=dom, name="src",
             p=["i_valid", "i_ready"] + ["i_" + f for f in list(in_fields) + fl],
             a=items, gaps=gaps, junk=junk),
        dict(kind="sink", dom=dom, name="sink",
             p=["o_valid", "o_ready"] + ["o_" + f for f in list(out_fields) + fl],
             ready=ready),
    ]


def stream_run(s, in_fields, out_fields, items, gaps=(), ready=(), junk=(), extra_cycles=None, flags=True,
               latency=64, more=()):
    """pushes all items through a valid/ready module; returns (accepted steps, output log)"""
    n = len(items)
    gap = sum(int(g) for g in gaps)/max(1, len(gaps)) if len(gaps) else 0
    g = [int(x) for x in gaps]
    rd = [int(x) for x in ready]
    duty = (sum(1 for x in rd if x)/len(rd)/(2 if 2 in rd else 1)) if rd else 1
    if duty == 0:
        raise HarnessError("ready never asserted")
    total = n*(1 + (max(g) if g else 0)) if n < 2000 else int(n*(1 + gap)) + 2000
    steps = int((total + latency)/duty) + latency*8 + (len(rd)*4 if rd else 0) + 16
    r = s.run(steps, stream_bfms(in_fields, out_fields, items, gaps, ready, junk, flags=flags) + list(more),
              clock="sys")
    return r


def first_diff(a, b):
    """index of the first row where two 2-D arrays differ (shorter = differs)"""
    n = min(len(a), len(b))
    if n:
        d = np.any(np.asarray(a[:n]) != np.asarray(b[:n]), axis=1)
        w = np.flatnonzero(d)
        if len(w):
            return int(w[0])
    if len(a) != len(b):
        return n
    return None


def readies(n):
    """consumer patterns: 0 not ready, 1 ready, 2 ready only for a word that was already waiting"""
    return st.one_of(st.lists(st.integers(0, 1), max_size=n).map(lambda l: l + [1]),
                     st.lists(st.integers(0, 1), max_size=n).map(lambda l: l + [1]),
                     st.lists(st.integers(0, 2), max_size=n).map(lambda l: l + [2]))
