"""FHDL -> C compiler.

Semantics implemented are those of migen.sim.core.Evaluator (unbounded
integers, truncation on assignment), on the fragment produced by lower.py.
Every expression carries an exact interval, from which the C type (int64_t,
__int128 or _BitInt) is chosen so that no C arithmetic can overflow.
"""
from migen.fhdl.structure import *
from migen.fhdl.structure import (_Operator, _Slice, _Part, _ArrayProxy,
                                  _Assign, _Value)
from migen.fhdl.bitcontainer import value_bits_sign
from migen.fhdl.specials import Memory, WRITE_FIRST, NO_CHANGE, READ_FIRST

from .lower import _flat


class DesignDefect(Exception):
    """the design itself is not a working circuit"""


class Unsupported(Exception):
    pass


class CombLoopError(Exception):
    pass


I64 = (-(1 << 63), (1 << 63) - 1)
I128 = (-(1 << 127), (1 << 127) - 1)


def ctype(lo, hi):
    if lo >= I64[0] and hi <= I64[1]:
        return "i64"
    if lo >= I128[0] and hi <= I128[1]:
        return "i128"
    n = max(lo.bit_length(), hi.bit_length()) + 1
    n = (n + 63)//64*64
    if n > 8192:
        raise Unsupported("value of {} bits".format(n))
    return "_BitInt({})".format(n)


def ubits(t):
    return {"i64": 64, "i128": 128}.get(t) or int(t[8:-1])


def utype(t):
    return {"i64": "u64", "i128": "u128"}.get(t) or "unsigned " + t


def lit(v):
    t = ctype(v, v)
    if t == "i64":
        if v == I64[0]:
            return "(-9223372036854775807LL-1)"
        return "({}LL)".format(v) if v < 0 else "{}LL".format(v)
    if v < 0:
        return "(-{})".format(lit(-v)) if t == ctype(-v, -v) else \
               "(({})(-{}-1))".format(t, lit(-v - 1))
    parts = []
    sh = 0
    x = v
    u = utype(t)
    while x:
        parts.append("(({})0x{:x}ULL<<{})".format(u, x & (2**64 - 1), sh))
        x >>= 64
        sh += 64
    return "(({})({}))".format(t, "|".join(parts))


class V:
    __slots__ = ("s", "lo", "hi", "t")

    def __init__(self, s, lo, hi):
        self.s = s
        self.lo = lo
        self.hi = hi
        self.t = ctype(lo, hi)

    def cast(self, t):
        return self.s if self.t == t else "({})({})".format(t, self.s)


def _mask_s(t, w):
    """w-bit mask of C type t"""
    u = utype(t)
    n = ubits(t)
    if w >= n:
        return "(~({})0)".format(u)
    return "((({})1<<{})-1)".format(u, w)


class Func:
    """One straight-line C function body generator"""

    def __init__(self, cg, newnames):
        self.cg = cg
        self.lines = []
        self.memo = [{}]
        self.newnames = newnames   # signal -> C lvalue of its "next" value
        self.reads = set()
        self.memreads = set()
        self.ind = 1

    def out(self, s):
        self.lines.append(" "*self.ind + s)

    def push(self):
        self.memo.append({})
        self.ind += 1

    def pop(self):
        self.memo.pop()
        self.ind -= 1

    def tmp(self, s, lo, hi):
        n = "t{}".format(self.cg.ntmp)
        self.cg.ntmp += 1
        t = ctype(lo, hi)
        self.out("{} {} = {};".format(t, n, s))
        return V(n, lo, hi)

    # -- expressions -------------------------------------------------------
    def sigv(self, sig, post=False):
        if post and sig in self.newnames:
            nm = self.newnames[sig]
        else:
            self.reads.add(sig)
            nm = self.cg.cname(sig)
        n = sig.nbits
        if sig.signed:
            return V("({})".format(nm) if n <= 64 else nm, -(1 << n - 1), (1 << n - 1) - 1)
        lo, hi = 0, (1 << n) - 1
        t = ctype(lo, hi)
        return V("({}){}".format(t, nm), lo, hi)

    def low(self, v, w):
        """unsigned low w bits of v"""
        if v.lo >= 0 and v.hi < (1 << w):
            return v
        t = ctype(0, (1 << w) - 1)
        u = utype(v.t)
        if ubits(t) < ubits(v.t):
            s = "({})(({})({})&{})".format(t, u, v.s, _mask_s(v.t, w))
        else:
            s = "({})(({})({})&{})".format(t, utype(t), v.cast(t), _mask_s(t, w))
        return V(s, 0, (1 << w) - 1)

    def ev(self, node, post=False):
        if isinstance(node, Constant):
            return V(lit(node.value), node.value, node.value)
        if isinstance(node, (bool, int)):
            return V(lit(int(node)), int(node), int(node))
        if isinstance(node, Signal):
            return self.sigv(node, post)
        if isinstance(node, ClockSignal):
            return self.sigv(self.cg.cds[node.cd].clk, post)
        if isinstance(node, ResetSignal):
            rst = self.cg.cds[node.cd].rst
            if rst is None:
                return V("0LL", 0, 0)
            return self.sigv(rst, post)
        if not post:
            for m in reversed(self.memo):
                if id(node) in m:
                    return m[id(node)]
        r = self.ev_(node, post)
        if len(r.s) > 24:
            r = self.tmp(r.s, r.lo, r.hi)
        if not post:
            self.memo[-1][id(node)] = r
        return r

    def ev_(self, node, post):
        if isinstance(node, _Operator):
            return self.op(node, post)
        if isinstance(node, _Slice):
            v = self.ev(node.value, post)
            return self.slice(v, node.start, node.stop)
        if isinstance(node, _Part):
            v = self.ev(node.value, post)
            o = self.ev(node.offset, post)
            sh = self.shr(v, o)
            return self.low(sh, node.width)
        if isinstance(node, Cat):
            return self.cat([(self.ev(e, post), len(e)) for e in node.l])
        if isinstance(node, Replicate):
            v = self.ev(node.v, post)
            return self.cat([(v, len(node.v))]*node.n)
        if isinstance(node, _ArrayProxy):
            k = self.ev(node.key, post)
            cs = [self.ev(c, post) for c in node.choices]
            return self.mux_tree(k, cs)
        raise Unsupported(type(node).__name__)

    def mux_tree(self, k, cs):
        lo = min(c.lo for c in cs)
        hi = max(c.hi for c in cs)
        t = ctype(lo, hi)
        if k.lo < 0:
            raise Unsupported("negative array index")

        def rec(a, b):
            if b - a == 1:
                return cs[a].cast(t)
            m = (a + b)//2
            return "({}<{}?{}:{})".format(k.s, m, rec(a, m), rec(m, b))
        return V(rec(0, len(cs)), lo, hi)

    def slice(self, v, start, stop):
        w = stop - start
        if w <= 0:
            return V("0LL", 0, 0)
        if start:
            n = ubits(v.t)
            sh = min(start, n - 1)
            v = V("({}>>{})".format(v.s, sh), v.lo >> start, v.hi >> start) \
                if v.t == ctype(v.lo >> start, v.hi >> start) else \
                V("(({})({}>>{}))".format(ctype(v.lo >> start, v.hi >> start), v.s, sh),
                  v.lo >> start, v.hi >> start)
        return self.low(v, w)

    def cat(self, parts):
        total = sum(w for _, w in parts)
        t = ctype(0, (1 << total) - 1 if total else 0)
        terms = []
        sh = 0
        for v, w in parts:
            if w:
                lv = self.low(v, w)
                c = lv.cast(t)
                terms.append("(({})({})<<{})".format(utype(t), c, sh) if sh else
                             "({})({})".format(utype(t), c))
            sh += w
        if not terms:
            return V("0LL", 0, 0)
        return V("(({})({}))".format(t, "|".join(terms)), 0, (1 << total) - 1)

    def shr(self, a, b):
        if b.lo < 0:
            b = self.tmp("({}<0?(G.err|=1,0):{})".format(b.s, b.s), 0, max(b.hi, 0))
        n = ubits(a.t)
        c = [a.lo >> b.lo, a.hi >> b.lo, a.lo >> min(b.hi, 9000), a.hi >> min(b.hi, 9000)]
        lo, hi = min(c), max(c)
        bs = b.s if b.hi < n else "({}>{}?{}:{})".format(b.s, n - 1, n - 1, b.s)
        t = ctype(lo, hi)
        s = "({}>>(int)({}))".format(a.s, bs)
        return V(s if t == a.t else "({}){}".format(t, s), lo, hi)

    def op(self, node, post):
        op = node.op
        o = [self.ev(x, post) for x in node.operands]
        a = o[0]
        if op == "~":
            lo, hi = ~a.hi, ~a.lo
            return V("(~{})".format(a.cast(ctype(lo, hi))), lo, hi)
        if op == "-" and len(o) == 1:
            lo, hi = -a.hi, -a.lo
            return V("(-{})".format(a.cast(ctype(lo, hi))), lo, hi)
        if op == "m":
            x, y = o[1], o[2]
            lo, hi = min(x.lo, y.lo), max(x.hi, y.hi)
            t = ctype(lo, hi)
            return V("({}?{}:{})".format(a.s, x.cast(t), y.cast(t)), lo, hi)
        b = o[1]
        if op in "+-*":
            if op == "+":
                lo, hi = a.lo + b.lo, a.hi + b.hi
            elif op == "-":
                lo, hi = a.lo - b.hi, a.hi - b.lo
            else:
                c = [a.lo*b.lo, a.lo*b.hi, a.hi*b.lo, a.hi*b.hi]
                lo, hi = min(c), max(c)
            # operands must also fit the computation type
            t = ctype(min(lo, a.lo, b.lo), max(hi, a.hi, b.hi))
            s = "({}{}{})".format(a.cast(t), op, b.cast(t))
            tt = ctype(lo, hi)
            return V(s if tt == t else "({}){}".format(tt, s), lo, hi)
        if op == ">>>":
            return self.shr(a, b)
        if op == "<<<":
            if b.lo < 0:
                b = self.tmp("({}<0?(G.err|=1,0):{})".format(b.s, b.s), 0, max(b.hi, 0))
            if b.hi > 4096:
                raise Unsupported("shift by up to {}".format(b.hi))
            c = [a.lo << b.lo, a.lo << b.hi, a.hi << b.lo, a.hi << b.hi]
            lo, hi = min(c), max(c)
            t = ctype(min(lo, a.lo), max(hi, a.hi))
            s = "(({})(({})({})<<(int)({})))".format(t, utype(t), a.cast(t), b.s)
            tt = ctype(lo, hi)
            return V(s if tt == t else "({}){}".format(tt, s), lo, hi)
        if op in ("&", "|", "^"):
            n = max(a.lo.bit_length(), a.hi.bit_length(), b.lo.bit_length(), b.hi.bit_length())
            if a.lo >= 0 and b.lo >= 0:
                lo, hi = 0, (1 << n) - 1
                if op == "&":
                    hi = min(a.hi, b.hi)
            else:
                lo, hi = -(1 << n), (1 << n) - 1
                if op == "&" and (a.lo >= 0 or b.lo >= 0):
                    lo = 0
                    hi = a.hi if a.lo >= 0 else b.hi
            t = ctype(min(lo, a.lo, b.lo), max(hi, a.hi, b.hi))
            s = "({}{}{})".format(a.cast(t), op, b.cast(t))
            tt = ctype(lo, hi)
            return V(s if tt == t else "({}){}".format(tt, s), lo, hi)
        if op in ("<", "<=", "==", "!=", ">", ">="):
            t = ctype(min(a.lo, b.lo), max(a.hi, b.hi))
            return V("(i64)({}{}{})".format(a.cast(t), op, b.cast(t)), 0, 1)
        raise Unsupported("op " + op)

    # -- statements --------------------------------------------------------
    def trunc(self, v, nbits, signed):
        """value of v truncated to nbits/signed"""
        if signed:
            lo, hi = -(1 << nbits - 1), (1 << nbits - 1) - 1
            if v.lo >= lo and v.hi <= hi:
                return v
            lv = self.low(v, nbits)
            t = ctype(0, (1 << nbits) - 1)
            tt = ctype(lo, hi)
            n = ubits(tt)
            return V("((({})(({})({})<<{}))>>{})".format(tt, utype(tt), lv.s, n - nbits, n - nbits), lo, hi)
        return self.low(v, nbits)

    def assign(self, lhs, v, only):
        if isinstance(lhs, ClockSignal):
            lhs = self.cg.cds[lhs.cd].clk
        elif isinstance(lhs, ResetSignal):
            lhs = self.cg.cds[lhs.cd].rst
        if isinstance(lhs, Signal):
            if only is not None and lhs is not only:
                return
            tv = self.trunc(v, lhs.nbits, lhs.signed)
            self.out("{} = {};".format(self.newnames[lhs], tv.s))
            return
        if only is not None and only not in self.cg.lhs_targets(lhs):
            return
        if isinstance(lhs, Cat):
            sh = 0
            for e in lhs.l:
                n = len(e)
                if only is None or only in self.cg.lhs_targets(e):
                    self.assign(e, self.slice(v, sh, sh + n), only)
                sh += n
            return
        if isinstance(lhs, _Slice):
            w = lhs.stop - lhs.start
            full = self.ev(lhs.value, True)
            n = max(len(lhs.value), lhs.stop)
            t = ctype(min(full.lo, 0), max(full.hi, (1 << n) - 1))
            u = utype(t)
            lv = self.low(v, w)
            m = "({}<<{})".format(_mask_s(t, w), lhs.start)
            s = "(({})((({})({})&~{})|(({})({})<<{})))".format(
                t, u, full.cast(t), m, u, lv.cast(t), lhs.start)
            nv = self.tmp(s, *self.trange(t))
            self.assign(lhs.value, nv, only)
            return
        if isinstance(lhs, _Part):
            full = self.ev(lhs.value, True)
            off = self.ev(lhs.offset, True)
            if off.lo < 0 or off.hi > 4096:
                raise Unsupported("part offset")
            n = max(len(lhs.value), off.hi + lhs.width)
            t = ctype(min(full.lo, 0), max(full.hi, (1 << n) - 1))
            u = utype(t)
            lv = self.low(v, lhs.width)
            m = "({}<<(int){})".format(_mask_s(t, lhs.width), off.s)
            s = "(({})((({})({})&~{})|(({})({})<<(int){})))".format(
                t, u, full.cast(t), m, u, lv.cast(t), off.s)
            nv = self.tmp(s, *self.trange(t))
            self.assign(lhs.value, nv, only)
            return
        if isinstance(lhs, _ArrayProxy):
            k = self.ev(lhs.key)
            if k.lo < 0:
                raise Unsupported("negative array index")
            n = len(lhs.choices)
            for i, c in enumerate(lhs.choices):
                c = wrap(c)
                if only is not None and only not in self.cg.lhs_targets(c):
                    continue
                cond = "{}=={}".format(k.s, i) if i < n - 1 else "{}>={}".format(k.s, i)
                self.out("if ({}) {{".format(cond))
                self.push()
                self.assign(c, v, only)
                self.pop()
                self.out("}")
            return
        raise Unsupported("assign to " + type(lhs).__name__)

    @staticmethod
    def trange(t):
        n = ubits(t)
        return -(1 << n - 1), (1 << n - 1) - 1

    def stmts(self, sl, only=None):
        for s in sl:
            if only is not None and only not in self.cg.targets_of(s):
                continue
            if isinstance(s, (list, tuple)):
                self.stmts(s, only)
            elif isinstance(s, _Assign):
                v = self.ev(s.r)
                self.assign(s.l, v, only)
            elif isinstance(s, If):
                c = self.ev(s.cond)
                c = self.low(c, max(1, len(s.cond)))
                self.out("if ({}) {{".format(c.s))
                self.push()
                self.stmts(s.t, only)
                self.pop()
                if s.f:
                    self.out("} else {")
                    self.push()
                    self.stmts(s.f, only)
                    self.pop()
                self.out("}")
            elif isinstance(s, Case):
                n, sg = value_bits_sign(s.test)
                t = self.trunc(self.ev(s.test), n, sg)
                t = self.tmp(t.s, t.lo, t.hi)
                first = True
                seen = set()
                for k, body in s.cases.items():
                    if isinstance(k, str):
                        continue
                    kv = k.value
                    if kv in seen or kv < t.lo or kv > t.hi:
                        continue
                    seen.add(kv)
                    self.out("{}if ({}=={}) {{".format("" if first else "} else ", t.s, lit(kv)))
                    first = False
                    self.push()
                    self.stmts(_flat(body), only)
                    self.pop()
                if "default" in s.cases:
                    self.out("{ {" if first else "} else {")
                    self.push()
                    self.stmts(_flat(s.cases["default"]), only)
                    self.pop()
                    self.out("} }" if first else "}")
                elif not first:
                    self.out("}")
            elif isinstance(s, Display):
                pass
            else:
                raise Unsupported("statement " + type(s).__name__)


class CodeGen:
    def __init__(self, L):
        self.L = L
        self.f = L.f
        self.cds = L.cds
        self.ntmp = 0
        self.names = {}
        self.order = []
        self._lt = {}
        self._st = {}
        self.keep = []   # keep ids alive

    def cname(self, sig):
        n = self.names.get(sig)
        if n is None:
            n = "S.s{}".format(len(self.order))
            self.names[sig] = n
            self.order.append(sig)
        return n

    def lhs_targets(self, lhs):
        k = id(lhs)
        r = self._lt.get(k)
        if r is not None:
            return r
        if isinstance(lhs, ClockSignal):
            r = {self.cds[lhs.cd].clk}
        elif isinstance(lhs, ResetSignal):
            r = {self.cds[lhs.cd].rst}
        elif isinstance(lhs, Signal):
            r = {lhs}
        elif isinstance(lhs, Cat):
            r = set().union(*[self.lhs_targets(e) for e in lhs.l]) if lhs.l else set()
        elif isinstance(lhs, (_Slice, _Part)):
            r = self.lhs_targets(lhs.value)
        elif isinstance(lhs, _ArrayProxy):
            r = set().union(*[self.lhs_targets(wrap(c)) for c in lhs.choices])
        else:
            raise Unsupported("lhs " + type(lhs).__name__)
        self._lt[k] = r
        self.keep.append(lhs)
        return r

    def targets_of(self, s):
        k = id(s)
        r = self._st.get(k)
        if r is not None:
            return r
        if isinstance(s, (list, tuple)):
            r = set().union(*[self.targets_of(x) for x in s]) if s else set()
        elif isinstance(s, _Assign):
            r = self.lhs_targets(s.l)
        elif isinstance(s, If):
            r = set().union(*([self.targets_of(x) for x in s.t] + [self.targets_of(x) for x in s.f])) \
                if (s.t or s.f) else set()
        elif isinstance(s, Case):
            r = set()
            for b in s.cases.values():
                for x in _flat(b):
                    r |= self.targets_of(x)
        else:
            r = set()
        self._st[k] = r
        self.keep.append(s)
        return r

    def storage_type(self, sig):
        n = sig.nbits
        if n <= 64:
            return "i64" if sig.signed else "u64"
        if sig.signed:
            return ctype(-(1 << n - 1), (1 << n - 1) - 1)
        return utype(ctype(0, (1 << n) - 1))

    def generate(self, extra_signals=()):
        f = self.f
        comb = _flat(f.comb)
        # assign stable order: by first appearance in statements
        per_target = {}
        torder = []
        for s in comb:
            for t in sorted(self.targets_of(s), key=lambda x: x.duid):
                if t not in per_target:
                    per_target[t] = []
                    torder.append(t)
                per_target[t].append(s)
        nodes = {}
        for t in torder:
            fn = Func(self, {t: "n"})
            fn.out("{} n = {};".format(self.storage_type(t), self.reset_lit(t)))
            self.cname(t)
            fn.stmts(per_target[t], only=t)
            nodes[t] = fn
        # memory read ports: comb part
        memio = []
        memfn = {}
        memidx = {m: i for i, m in enumerate(self.L.memories)}
        for pi, p in enumerate(self.L.memports):
            mem = [m for m in self.L.memories if p in m.ports][0]
            mi = memidx[mem]
            if p.async_read or p.mode == WRITE_FIRST:
                if not isinstance(p.dat_r, Signal):
                    raise Unsupported("dat_r")
                fn = Func(self, {p.dat_r: "n"})
                self.cname(p.dat_r)
                fn.out("{} n;".format(self.storage_type(p.dat_r)))
                if p.async_read:
                    a = fn.ev(p.adr)
                    fn.out("n = M{}[{}>{}?{}:{}];".format(mi, a.s, mem.depth - 1, mem.depth - 1, a.s))
                else:
                    fn.out("n = M{}[G.ar{}];".format(mi, pi))
                nodes[p.dat_r] = fn
                torder.append(p.dat_r)
        # topological order / SCC
        deps = {t: [r for r in sorted(nodes[t].reads, key=lambda x: x.duid) if r in nodes]
                for t in torder}
        sccs = _tarjan(torder, deps)
        body = []
        chunk = []
        self.loops = []

        def emit_node(t, changed=False):
            fn = nodes[t]
            r = ["{"] + fn.lines
            nm = self.cname(t)
            if changed:
                r.append(" if ({0} != n) {{ {0} = n; ch = 1; }}".format(nm))
            else:
                r.append(" {} = n;".format(nm))
            r.append("}")
            return r
        funcs = []
        cur = []
        for scc in sccs:
            if len(scc) == 1 and scc[0] not in deps[scc[0]]:
                cur += emit_node(scc[0])
            else:
                self.loops.append([self.sname(x) for x in scc])
                cur.append("{ int it = 0, ch; do { ch = 0;")
                # iterate in program order
                for t in [x for x in torder if x in set(scc)]:
                    cur += emit_node(t, True)
                cur.append("} while (ch && ++it < 200); if (ch) G.err |= 2; }")
            if len(cur) > 400:
                funcs.append(cur)
                cur = []
        if cur:
            funcs.append(cur)
        csrc = []
        for i, fl in enumerate(funcs):
            csrc.append("static void comb_{}(void) {{".format(i))
            csrc += fl
            csrc.append("}")
        csrc.append("static void eval_comb(void) {" + "".join(" comb_{}();".format(i) for i in range(len(funcs))) + "}")

        # sync
        self.domains = sorted(set(f.sync.keys()) | {p.clock.cd for p in self.L.memports})
        shadow = []
        for d in self.domains:
            sl = _flat(f.sync.get(d, []))
            targets = []
            for s in sl:
                for t in sorted(self.targets_of(s), key=lambda x: x.duid):
                    if t not in targets:
                        targets.append(t)
            extra = []
            for pi, p in enumerate(self.L.memports):
                if p.clock.cd == d and not p.async_read and p.mode != WRITE_FIRST:
                    extra.append(p.dat_r)
            targets += extra
            for t in targets:
                if t in nodes:
                    raise DesignDefect("signal {} is driven twice".format(self.sname(t)))
                if t in shadow:
                    raise DesignDefect("signal {} is driven from two clock domains".format(self.sname(t)))
            nn = {t: "N.{}".format(self.cname(t)[2:]) for t in targets}
            shadow += targets
            fn = Func(self, nn)
            for t in targets:
                fn.out("{} = {};".format(nn[t], self.cname(t)))
            fn.stmts(sl)
            # memory ports
            for pi, p in enumerate(self.L.memports):
                if p.clock.cd != d:
                    continue
                mem = [m for m in self.L.memories if p in m.ports][0]
                mi = memidx[mem]
                a = fn.ev(p.adr)
                idx = "({}>{}?{}:{})".format(a.s, mem.depth - 1, mem.depth - 1, a.s)
                if not p.async_read:
                    cond = None
                    if p.re is not None:
                        cond = fn.low(fn.ev(p.re), 1).s
                    if p.mode == WRITE_FIRST:
                        st = "G.nar{} = {};".format(pi, idx)
                        fn.out("G.nar{0} = G.ar{0};".format(pi))
                    elif p.mode == NO_CHANGE and p.we is not None:
                        w = fn.low(fn.ev(p.we), max(1, len(p.we))).s
                        # Migen: If(~we, ...), masked to len(we)
                        full = (1 << len(p.we)) - 1
                        st = "if ({} != {}) {} = M{}[{}];".format(w, full, nn[p.dat_r], mi, idx)
                    else:
                        st = "{} = M{}[{}];".format(nn[p.dat_r], mi, idx)
                    fn.out(("if ({}) {{ {} }}".format(cond, st)) if cond else st)
                if p.we is not None:
                    w = fn.low(fn.ev(p.we), max(1, len(p.we)))
                    dv = fn.trunc(fn.ev(p.dat_w), mem.width, False)
                    fn.out("G.mwe{} = {}; G.mad{} = {}; G.mdt{} = {};".format(pi, w.s, pi, idx, pi, dv.s))
            csrc.append("static void sync_{}(void) {{".format(d))
            csrc += fn.lines
            csrc.append("}")
            csrc.append("static void commit_{}(void) {{".format(d))
            for t in targets:
                csrc.append(" {} = {};".format(self.cname(t), nn[t]))
            for pi, p in enumerate(self.L.memports):
                if p.clock.cd != d:
                    continue
                mem = [m for m in self.L.memories if p in m.ports][0]
                mi = memidx[mem]
                if not p.async_read and p.mode == WRITE_FIRST:
                    csrc.append(" G.ar{0} = G.nar{0};".format(pi))
                if p.we is not None:
                    mt = utype(ctype(0, (1 << mem.width) - 1))
                    if p.we_granularity:
                        g = p.we_granularity
                        for i in range(mem.width//g):
                            m = "((({})({}))<<{})".format(mt, _mask_s(ctype(0, (1 << mem.width) - 1), g), i*g)
                            csrc.append(" if (G.mwe{0}>>{1}&1) M{2}[G.mad{0}] = (M{2}[G.mad{0}] & ~{3}) | (G.mdt{0} & {3});".format(
                                pi, i, mi, m))
                    else:
                        csrc.append(" if (G.mwe{0}) M{1}[G.mad{0}] = G.mdt{0};".format(pi, mi))
            csrc.append("}")

        for s in extra_signals:
            self.cname(s)
        for cd in self.f.clock_domains:
            self.cname(cd.clk)
            if cd.rst is not None:
                self.cname(cd.rst)

        self.comb_targets = set(nodes)
        self.sync_targets = set(shadow)

        # declarations
        h = ["typedef long long i64; typedef unsigned long long u64;",
             "typedef __int128 i128; typedef unsigned __int128 u128;"]
        h.append("static struct {")
        for i, s in enumerate(self.order):
            h.append(" {} s{};".format(self.storage_type(s), i))
        h.append("} S;")
        h.append("static struct { int _dummy;")
        for t in shadow:
            h.append(" {} {};".format(self.storage_type(t), self.cname(t)[2:]))
        h.append("} N;")
        h.append("static struct { int err;")
        for pi, p in enumerate(self.L.memports):
            mem = [m for m in self.L.memories if p in m.ports][0]
            mt = utype(ctype(0, (1 << mem.width) - 1))
            h.append(" unsigned ar{0}, nar{0}, mad{0}; u64 mwe{0}; {1} mdt{0};".format(pi, mt))
        h.append("} G;")
        for i, m in enumerate(self.L.memories):
            h.append("static {} M{}[{}];".format(utype(ctype(0, (1 << m.width) - 1)), i, m.depth))
        rs = ["static void reset_state(void) {",
              " __builtin_memset(&S,0,sizeof S); __builtin_memset(&N,0,sizeof N); __builtin_memset(&G,0,sizeof G);"]
        for i, s in enumerate(self.order):
            if s.reset.value:
                rs.append(" S.s{} = {};".format(i, self.reset_lit(s)))
        for i, m in enumerate(self.L.memories):
            rs.append(" __builtin_memset(M{0},0,sizeof M{0});".format(i))
            if m.init:
                h.append("static const {} MI{}[{}] = {{{}}};".format(
                    utype(ctype(0, (1 << m.width) - 1)), i, len(m.init),
                    ",".join(lit(int(x) & ((1 << m.width) - 1)) for x in m.init)))
                rs.append(" __builtin_memcpy(M{0},MI{0},sizeof MI{0});".format(i))
        rs.append("}")
        return "\n".join(h + csrc + rs) + "\n"

    def reset_lit(self, s):
        v = s.reset.value & ((1 << s.nbits) - 1)
        if s.signed and v >> (s.nbits - 1):
            v -= 1 << s.nbits
        return lit(v)

    def sname(self, s):
        try:
            return "_".join(str(x[0]) for x in s.backtrace[-2:])
        except Exception:
            return repr(s)


def _tarjan(nodes, deps):
    index = {}
    low = {}
    onst = set()
    st = []
    out = []
    cnt = [0]
    for root in nodes:
        if root in index:
            continue
        work = [(root, 0)]
        while work:
            v, i = work[-1]
            if i == 0:
                index[v] = low[v] = cnt[0]
                cnt[0] += 1
                st.append(v)
                onst.add(v)
            rec = False
            ds = deps[v]
            while i < len(ds):
                w = ds[i]
                i += 1
                if w not in index:
                    work[-1] = (v, i)
                    work.append((w, 0))
                    rec = True
                    break
                elif w in onst:
                    low[v] = min(low[v], index[w])
            if rec:
                continue
            work.pop()
            if work:
                p = work[-1][0]
                low[p] = min(low[p], low[v])
            if low[v] == index[v]:
                scc = []
                while True:
                    w = st.pop()
                    onst.discard(w)
                    scc.append(w)
                    if w is v:
                        break
                out.append(scc)
    return out
