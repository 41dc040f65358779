"""Compile a Migen design and run it with C bus-functional models."""
import ctypes
import hashlib
import os
import subprocess
import tempfile

import numpy as np

from migen import Signal, Module, Cat, C, ClockSignal
from migen.fhdl.structure import _Assign
from migen.fhdl.bitcontainer import value_bits_sign

from .lower import lower
from .codegen import CodeGen, DesignDefect, Unsupported

HERE = os.path.dirname(os.path.abspath(__file__))
CACHE = os.environ.get("VSIM_CACHE", os.path.join(os.path.dirname(HERE), "build", "vsim"))

MAXW = 64

# when set, every run is replayed on Migen's evaluator (see Sim._confirm)
CONFIRM = False
CONFIRM_STEPS = 0
CONFIRM_BUDGET = 20.0


class HarnessError(Exception):
    """the harness cannot drive this design (never a property violation)"""


class Design:
    """a module plus named ports; built by a factory so it can be rebuilt"""

    def __init__(self, module, domains=("sys",)):
        self.module = module
        self.domains = list(domains)
        self.ports = {}      # name -> Signal (<= 64 bits)
        self.wide = {}       # name -> [names]
        self.late = []       # functions (L, design) adding ports after lowering

    def port(self, name, sig):
        if not isinstance(sig, Signal):
            raise HarnessError("port {} is not a Signal".format(name))
        if len(sig) > MAXW:
            raise HarnessError("port {} too wide".format(name))
        self.ports[name] = sig
        return name

    def out(self, name, expr):
        """an observed expression of any width"""
        n, s = value_bits_sign(expr)
        if n <= MAXW:
            if isinstance(expr, Signal):
                self.ports[name] = expr
            else:
                p = Signal((n, s))
                self.module.comb += p.eq(expr)
                self.ports[name] = p
            return [name]
        names = []
        for i in range(0, n, MAXW):
            w = min(MAXW, n - i)
            p = Signal(w)
            self.module.comb += p.eq(expr[i:i + w])
            nm = "{}@{}".format(name, i//MAXW)
            self.ports[nm] = p
            names.append(nm)
        self.wide[name] = names
        return names

    def inp(self, name, sig):
        n = len(sig)
        if n <= MAXW and isinstance(sig, Signal):
            self.ports[name] = sig
            return [name]
        names = []
        parts = []
        for i in range(0, n, MAXW):
            w = min(MAXW, n - i)
            p = Signal(w)
            nm = "{}@{}".format(name, i//MAXW)
            self.ports[nm] = p
            names.append(nm)
            parts.append(p)
        self.module.comb += sig.eq(Cat(*parts))
        self.wide[name] = names
        return names

    def names(self, name):
        return self.wide.get(name, [name])


class _Bfm(ctypes.Structure):
    _fields_ = [
        ("kind", ctypes.c_int64), ("dom", ctypes.c_int64),
        ("np", ctypes.c_int64), ("p", ctypes.c_void_p),
        ("a", ctypes.c_void_p), ("na", ctypes.c_int64),
        ("b", ctypes.c_void_p), ("nb", ctypes.c_int64),
        ("c", ctypes.c_void_p), ("nc", ctypes.c_int64),
        ("m", ctypes.c_void_p), ("nm", ctypes.c_int64),
        ("o", ctypes.c_void_p), ("oc", ctypes.c_int64), ("on", ctypes.c_int64),
        ("x0", ctypes.c_int64), ("x1", ctypes.c_int64),
        ("pos", ctypes.c_int64), ("wait", ctypes.c_int64), ("tick", ctypes.c_int64),
        ("act", ctypes.c_int64), ("viol", ctypes.c_int64), ("violt", ctypes.c_int64),
        ("prev", ctypes.c_void_p), ("prevv", ctypes.c_int64),
        ("q", ctypes.c_void_p), ("qc", ctypes.c_int64), ("qh", ctypes.c_int64), ("qt", ctypes.c_int64),
    ]


KINDS = {"play": 0, "rec": 1, "src": 2, "sink": 3, "rdmem": 4, "wrmem": 5}


def _u64(x, w):
    a = np.asarray(x)
    if a.dtype == object:
        a = np.array([[int(v) & (2**64 - 1) for v in np.ravel(r)] for r in a], dtype=np.uint64)
    elif a.dtype.kind == "i":
        a = a.astype(np.int64).view(np.uint64)
    else:
        a = a.astype(np.uint64)
    a = np.ascontiguousarray(a)
    if w == 0:
        return np.zeros((len(a), 0), dtype=np.uint64)
    return a.reshape(-1, w)


def _i64(x):
    return np.ascontiguousarray(np.asarray(x, dtype=np.int64).reshape(-1))


class Result:
    pass


class Sim:
    def __init__(self, make, opt="-O1"):
        self.make = make
        d = make()
        self.design = d
        L = lower(d.module, extra_domains=d.domains)
        self.L = L
        for fn in d.late:
            fn(L, d)
        cg = CodeGen(L)
        src = cg.generate(extra_signals=list(d.ports.values()))
        self.cg = cg
        self.domains = sorted(set(cg.domains) | set(d.domains))
        self.dom_idx = {n: i for i, n in enumerate(self.domains)}
        if len(self.domains) > 30:
            raise HarnessError("too many clock domains")
        self.pnames = list(d.ports)
        self.pidx = {n: i for i, n in enumerate(self.pnames)}
        rows = []
        for n in self.pnames:
            s = d.ports[n]
            rows.append("{{(u64*)&{}, {}, {}}}".format(cg.cname(s), s.nbits, int(s.signed)))
        src += "static void sync_all(unsigned mk) {\n"
        for n in cg.domains:
            src += " if (mk>>{}&1) sync_{}();\n".format(self.dom_idx[n], n)
        for n in cg.domains:
            src += " if (mk>>{}&1) commit_{}();\n".format(self.dom_idx[n], n)
        src += "}\n"
        rt = open(os.path.join(HERE, "rt.c")).read()
        src += rt.replace("static Port ports[];",
                          "static Port ports[] = {%s};" % ", ".join(rows))
        self.src = src
        self.lib = self._compile(src, opt)
        self.lib.sim_run.restype = ctypes.c_int64
        self.lib.sim_run.argtypes = [ctypes.c_int64, ctypes.c_void_p, ctypes.c_void_p,
                                     ctypes.c_int64, ctypes.c_void_p, ctypes.c_int64,
                                     ctypes.c_void_p]
        self._checked = False
        self.alias = self._aliases()
        self.driven = cg.comb_targets | cg.sync_targets
        self._drv_names = {n for n in self.pnames if d.ports[n] in self.driven}

    @staticmethod
    def _compile(src, opt):
        os.makedirs(CACHE, exist_ok=True)
        key = hashlib.sha256((opt + src).encode()).hexdigest()[:32]
        so = os.path.join(CACHE, key + ".so")
        if not os.path.exists(so):
            fd, tmp = tempfile.mkstemp(suffix=".so", dir=CACHE)
            os.close(fd)
            cfile = tmp[:-3] + ".c"
            with open(cfile, "w") as f:
                f.write(src)
            r = subprocess.run(["clang", opt, "-w", "-fwrapv", "-shared", "-fPIC", "-o", tmp, cfile],
                               capture_output=True, text=True)
            if r.returncode:
                raise HarnessError("clang failed: {}".format(r.stderr[:2000]))
            os.unlink(cfile)
            os.replace(tmp, so)
        return ctypes.CDLL(so)

    def _confirm(self, nsteps, bfms, mask, budget):
        """replay this run on Migen's evaluator and compare everything logged"""
        global CONFIRM_STEPS
        from . import refsim
        res = self._run(0, bfms, mask[:200000 if CONFIRM else 20000], trace=True)
        watch = {}
        for b, log in zip(bfms, res.logs):
            if b["kind"] == "rec":
                names = b["p"]
            elif b["kind"] == "sink":
                names = b["p"][2:]
            else:
                continue
            for i, n in enumerate(names):
                if n not in self._drv_names:
                    continue
                watch.setdefault(n, [[], []])
                watch[n][0] += log[:, 0].tolist()
                watch[n][1] += log[:, 1 + i].tolist()
        try:
            CONFIRM_STEPS += refsim.replay(self, res, watch, budget_s=budget)
        except refsim.RefMismatch as e:
            if "fixpoint" in str(e):
                raise DesignDefect("a combinational feedback loop does not settle")
            raise HarnessError("compiled simulator disagrees with migen: {}".format(e))

    def _aliases(self):
        """domains whose clock is wired to another domain's clock"""
        by = {cd.clk: n for n, cd in self.L.cds.items()}

        def dom(e):
            if isinstance(e, ClockSignal):
                return e.cd
            return by.get(e) if isinstance(e, Signal) else None
        src = {}
        for st in self.L.f.comb:
            if isinstance(st, _Assign):
                a, b = dom(st.l), dom(st.r)
                if a is not None and b is not None:
                    src[a] = b
        r = {}
        for a in src:
            b, seen = a, set()
            while b in src and b not in seen:
                seen.add(b)
                b = src[b]
            r.setdefault(b, []).append(a)
        return r

    # -- run ---------------------------------------------------------------
    def mask(self, doms):
        m = 0
        for d in doms:
            for x in [d] + self.alias.get(d, []):
                if x in self.dom_idx:
                    m |= 1 << self.dom_idx[x]
                elif x == d and d not in self.L.cds:
                    raise HarnessError("no clock domain {}".format(d))
        return m

    def run(self, nsteps, bfms, mask=None, clock=None):
        if mask is None:
            mask = np.full(nsteps, self.mask([clock] if isinstance(clock, str) else clock), dtype=np.uint32)
        if not self._checked or CONFIRM:
            # the first run of every design is cross-checked against Migen
            self._confirm(nsteps, bfms, mask, CONFIRM_BUDGET if CONFIRM else 0.3)
            self._checked = True
        return self._run(nsteps, bfms, mask)

    def _run(self, nsteps, bfms, mask=None, clock=None, trace=False):
        """bfms: list of dicts.  mask: uint32 array of per-step domain masks, or
        clock: a single domain name ticking at every step.
        Returns dict name -> results per bfm (ordered list if unnamed)."""
        if mask is None:
            mask = np.full(nsteps, self.mask([clock] if isinstance(clock, str) else clock), dtype=np.uint32)
        mask = np.ascontiguousarray(mask, dtype=np.uint32)
        nsteps = len(mask)
        counts = {}
        keep = [mask]
        arr = (_Bfm*max(1, len(bfms)))()
        outs = []
        tin = []
        for i, b in enumerate(bfms):
            f = arr[i]
            kind = b["kind"]
            f.kind = KINDS[kind]
            dom = b.get("dom")
            f.dom = -1 if dom is None else self.dom_idx[dom]
            if dom not in counts:
                counts[dom] = nsteps if dom is None else int(((mask >> f.dom) & 1).sum())
            nt = counts[dom]
            pi = []
            for n in b["p"]:
                if n is None:
                    pi.append(-1)
                    continue
                if n not in self.pidx:
                    raise HarnessError("no port " + n)
                pi.append(self.pidx[n])
            pa = _i64(pi)
            keep.append(pa)
            f.np = len(pi)
            f.p = pa.ctypes.data
            nout = 0
            w = 0
            ins = []
            if kind == "play":
                a = _u64(b["a"], len(pi))
                keep.append(a)
                f.a, f.na = a.ctypes.data, len(a)
                f.x0 = int(b.get("cyclic", 0))
                ins = b["p"]
            elif kind == "rec":
                w = len(pi) + 1
                nout = nt if "max" not in b else min(nt, b["max"])
                f.x0 = self.pidx[b["cond"]] if b.get("cond") else -1
            elif kind == "src":
                a = _u64(b["a"], len(pi) - 2)
                keep.append(a)
                f.a, f.na = a.ctypes.data, len(b["a"])
                g = _i64(b.get("gaps", []))
                keep.append(g)
                f.b, f.nb = g.ctypes.data, len(g)
                f.wait = int(g[0]) if len(g) else 0
                j = _i64(b.get("junk", []))
                keep.append(j)
                f.c, f.nc = j.ctypes.data, len(j)
                w, nout = 1, min(nt, len(b["a"]))
                ins = [b["p"][0]] + list(b["p"][2:])
            elif kind == "sink":
                g = _i64(b.get("ready", []))
                keep.append(g)
                f.b, f.nb = g.ctypes.data, len(g)
                w, nout = len(pi) - 1, nt
                ins = [b["p"][1]]
                pv = np.zeros(max(1, len(pi)), dtype=np.uint64)
                keep.append(pv)
                f.prev = pv.ctypes.data
            elif kind in ("rdmem", "wrmem"):
                g = _i64(b.get("ready", []))
                l = _i64(b.get("lat", []))
                keep += [g, l]
                f.b, f.nb = g.ctypes.data, len(g)
                f.c, f.nc = l.ctypes.data, len(l)
                q = np.zeros(2*(nt + 4), dtype=np.uint64)
                keep.append(q)
                f.q, f.qc = q.ctypes.data, nt + 4
                if kind == "rdmem":
                    m = _u64(b["mem"], len(pi) - 6)
                    keep.append(m)
                    f.m, f.nm = m.ctypes.data, len(m)
                    f.x0 = int(b.get("junk", 1))
                    f.x1 = int(b.get("hold", 0))
                    w, nout = 3, nt
                    ins = [b["p"][1], b["p"][4]] + list(b["p"][6:])
                else:
                    w, nout = len(pi) - 7 + 4, nt
                    ins = [b["p"][1], b["p"][5]]
            else:
                raise HarnessError(kind)
            for n in ins:
                if n is None:
                    continue
                if n in self._drv_names:
                    raise HarnessError("port {} is driven by the design".format(n))
                tin.append(n)
            o = np.zeros((max(1, nout), max(1, w)), dtype=np.uint64)
            keep.append(o)
            f.o, f.oc = o.ctypes.data, nout
            outs.append((o, w))
        tin_i = _i64([self.pidx[n] for n in tin])
        tr = None
        if trace:
            tr = np.zeros((nsteps, len(tin)), dtype=np.uint64)
        self.lib.sim_reset()
        err = self.lib.sim_run(nsteps, mask.ctypes.data, ctypes.addressof(arr), len(bfms),
                               tin_i.ctypes.data, len(tin), tr.ctypes.data if trace else None)
        if err & 2:
            raise DesignDefect("a combinational feedback loop does not settle: {}".format(self.cg.loops[0][:4]))
        res = Result()
        res.err = int(err)
        res.logs = []
        res.viol = []
        res.violt = []
        res.pos = []
        res.by = {}
        for i, b in enumerate(bfms):
            o, w = outs[i]
            if arr[i].viol & (1 << 40):
                raise HarnessError("output buffer overflow in bfm {}".format(i))
            if arr[i].viol & (1 << 41):
                raise HarnessError("queue overflow in bfm {}".format(i))
            log = o[:arr[i].on, :w] if w else o[:0]
            res.logs.append(log)
            res.viol.append(int(arr[i].viol))
            res.violt.append(int(arr[i].violt))
            res.pos.append(int(arr[i].pos))
            if "name" in b:
                r = Result()
                r.log = log
                r.viol = int(arr[i].viol)
                r.violt = int(arr[i].violt)
                r.pos = int(arr[i].pos)
                res.by[b["name"]] = r
        res.trace = tr
        res.trace_names = tin
        res.mask = mask
        return res

    def __getitem__(self, n):
        return self.design.names(n)


def clocks(nsteps_time, specs):
    """specs: list of (name, period, phase).  Edges at phase + k*period for
    0 <= t < nsteps_time.  Returns (times, list of domain-name sets)."""
    ev = {}
    for n, p, ph in specs:
        t = ph
        while t < nsteps_time:
            ev.setdefault(t, []).append(n)
            t += p
    ts = sorted(ev)
    return ts, [ev[t] for t in ts]
