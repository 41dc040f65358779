"""C33: the clock trees."""
import numpy as np
from hypothesis import strategies as st
from migen import Module, Signal

from lib.pbt import Sub, Info, Violation
from lib.hw import sim
from lib.csr import WithBank, Play
from lib import xil, clk
from vsim.sim import Design

PID = "C33"
ASSUMPTIONS = ["PLLs, DCMs and clock buffers are models: a PLL locks some periods after it sees its own feedback at the rate of its input, "
               "outputs follow from its multiplier, dividers and phases, and buffers do not delay"]

# clocks and their multiple of the pixel clock; domains held in reset while the (k-th) lock is missing
DESIGNS = {
    "s6in": ({"pix": 1, "pix_o": 1, "pix2x": 2, "pix10x": 10}, {"pix": 0, "pix2x": 0}),
    "s7in": ({"pix": 1, "pix_o": 1, "pix1p25x": 1.25, "pix5x": 5, "pix5x_o": 5}, {"pix": 0, "pix1p25x": 0, "pix_o": 0}),
    "s7split": ({"pix": 1, "pix_o": 1, "pix1p25x": 1.25, "pix5x": 5, "pix5x_o": 5}, {"pix": 0, "pix1p25x": 0, "pix_o": 1}),
    "s6out": ({"pix": 1, "pix2x": 2, "pix10x": 10}, {}),
    "s6two": ({"pix": 1, "pix2x": 2, "pix10x": 10, "b_pix": 1, "b_pix2x": 2, "b_pix10x": 10}, {}),
    "s7out": ({"pix": 1, "pix5x": 5}, {"pix": 0}),
}


class DiffPads:
    def __init__(self, inv=False):
        self.clk_p, self.clk_n = Signal(name="clk_p"), Signal(name="clk_n")
        if inv:
            self.clk_p.inverted = True


class VGAPads:
    def __init__(self):
        self.clk = Signal(name="clk")


class Two(Module):
    """two outputs, the second with the clocks of the first"""

    def __init__(self, cls, pa, pb):
        self.submodules.a = cls(pa, None)
        self.submodules.b = cls(pb, self.a)

    def get_csrs(self):
        return self.a.get_csrs()


def dut(name, inv, vga):
    def make():
        pads = VGAPads() if vga else DiffPads(inv)
        pb = None
        if name in ("s6out", "s6two"):
            from litevideo.output.hdmi.s6 import S6HDMIOutClocking as cls
            doms = ["base50"]
            if name == "s6two":
                pb = DiffPads() if vga else VGAPads()
                x = Two(cls, pads, pb)
            else:
                x = cls(pads, None)
        elif name == "s7out":
            from litevideo.output.hdmi.s7 import S7HDMIOutClocking as cls
            x = cls(pads, None)
            doms = ["clk100"]
        elif name == "s6in":
            from litevideo.input.clocking import S6Clocking
            x = S6Clocking(pads)
            doms = []
        else:
            from litevideo.input.clocking import S7Clocking
            x = S7Clocking(pads, split_clocking=name == "s7split")
            doms = []
        m = WithBank(x)
        d = m.ports(Design(m, ["sys", "vt"] + doms))
        if name in ("s6in", "s7in", "s7split"):
            d.port("in_p", pads.clk_p)
            d.port("in_n", pads.clk_n)
            d.port("locked", x.locked)
        for q, t in ((pads, "a"), (pb, "b")):
            if q is not None and hasattr(q, "clk"):
                d.port("vga_" + t, q.clk)

        def late(L, d):
            lockn = Signal(8)
            d.port("lockn", lockn)
            n = 0
            for i in sorted(L.instances, key=lambda i: clk.PLLS.index(i.of) if i.of in clk.PLLS else 9):
                if i.of in clk.PLLS:
                    kill = Signal()
                    lk, rst = clk.pll(L, i, lockn, kill)
                    d.port("kill{}".format(n), kill)
                    for nm, e in (("lk", lk), ("rst", rst)):
                        q = Signal()
                        L.f.comb.append(q.eq(e))
                        d.port("{}{}".format(nm, n), q)
                    n += 1
                elif i.of == "DCM_CLKGEN":
                    xil.port(d, i, "dcm_clk", "CLKFX")
                    xil.port(d, i, "dcm_locked", "LOCKED")
                else:
                    clk.buffers(L, i)
                if i.of == "BUFPLL":
                    d.port("gclk_" + str(len([x for x in d.ports if x.startswith("gclk")])), i.i["GCLK"])
                    d.bufpll_div = int(i.params.get("DIVIDE", 1))
            d.plls = n
            names = {}
            for c in DESIGNS[name][0]:
                cd = c
                if cd not in L.cds and "_" + c in L.cds:
                    cd = "_" + c
                if name == "s6two":
                    cd = c if c.startswith("b_") else "a_" + c
                names[c] = cd
                d.port("ck_" + c, L.cds[cd].clk)
            for c in DESIGNS[name][1]:
                q = Signal()
                if L.cds[names[c]].rst is not None:
                    L.f.comb.append(q.eq(L.cds[names[c]].rst))
                d.port("rs_" + c, q)
            if name == "s7out":
                d.port("ref", L.cds["clk100"].clk)
        d.late.append(late)
        return d
    return sim(("clktree", name, inv, vga), make)


def _edges(x):
    return np.flatnonzero((x[1:] == 1) & (x[:-1] == 0)) + 1


def fn(case):
    name = case["name"]
    out = name in ("s6out", "s6two", "s7out")
    inv = bool(case["inv"] and name in ("s7in", "s7split"))
    vga = bool(case["vga"] and out)
    s = dut(name, inv, vga)
    mults, resets = DESIGNS[name]
    k = case["k"]
    if name == "s7out":
        ref = 30*k
        per = 20*k
    else:
        ref = per = 40*k
    sp = case["sys"]
    lockn = case["lockn"]
    tlock = (lockn + 16)*ref*(2 if name == "s7out" else 1)
    if name == "s7split":
        tlock *= 2
    stem = "mmcm" if name.startswith("s7") else "pll"
    pl = Play(s.design.csr)
    rst = [(0, 0 if out else 1)]
    kills = []
    dcm = [(0, 1)]
    pl.idle(2)

    def wait(t):
        pl.idle(t//sp + 1)
    for op in case["ops"]:
        if op[0] == "reset":
            pl.wr(stem + "_reset", op[1])
            rst.append(((pl.now() - (op[1] == 1))*sp, op[1]))
        elif op[0] == "kill":
            kills.append((pl.now()*sp + op[3], op[1] % s.design.plls, op[2]*ref//4 + 1))
        elif op[0] == "dcm" and name in ("s6out", "s6two"):
            dcm.append((pl.now()*sp + op[2], op[1]))
        elif op[0] == "wait":
            wait(op[1]*ref//4)
            continue
        wait(tlock + 12*per + 12*sp)
    steps = pl.now()*sp
    t = np.arange(steps)
    cols, a = ["lockn"], [np.full(steps, lockn)]
    kl = np.zeros((s.design.plls, steps), dtype=np.int64)
    for at, p, n in kills:
        kl[p, at:at + n] = 1
    for p in range(s.design.plls):
        cols.append("kill{}".format(p))
        a.append(kl[p])
    src = ((t % ref) < ref//2).astype(np.int64)
    dl = np.ones(steps, dtype=np.int64)
    if not out:
        cols += ["in_p", "in_n"]
        a += [src ^ inv, 1 - (src ^ inv)]
    elif name == "s7out":
        cols.append("ref")
        a.append(src)
    else:
        for at, v in dcm:
            dl[at:] = v
        cols += ["dcm_clk", "dcm_locked"]
        a += [src, dl]
    obs = ["lk{}".format(p) for p in range(s.design.plls)]
    obs += ["ck_" + c for c in mults] + ["rs_" + c for c in resets] + (["locked"] if not out else [])
    obs += [p for p in s.design.ports if p.startswith(("vga_", "gclk_"))]
    mask = np.full(steps, s.mask(["vt"]), dtype=np.uint32)
    mask[::sp] |= s.mask(["sys"])
    r = s.run(steps, pl.bfms("sys") + [
        dict(kind="play", dom="vt", p=cols, a=np.stack(a, axis=1).astype(np.uint64)),
        dict(kind="rec", dom="vt", name="o", p=obs)], mask=mask)
    log = r.by["o"].log[:, 1:].astype(np.int64)
    g = {n: log[:, j] for j, n in enumerate(obs)}
    lk = np.stack([g["lk{}".format(p)] for p in range(s.design.plls)])
    # expected lock: out of reset, fed and undisturbed for long enough
    rs = np.zeros(steps, dtype=np.int64)
    for at, v in rst:
        rs[at:] = v
    calm = (rs == 0) & (dl == 1) & (kl.max(axis=0) == 0)
    last = np.maximum.accumulate(np.where(calm, 0, t + 1))
    due = t - last > tlock + 6*sp
    bad = np.flatnonzero(due & (lk.min(axis=0) == 0))
    if len(bad):
        raise Violation("{}: a PLL has not locked {} input periods after its reset ended (its input or feedback does not reach it)".format(
            name, int(bad[0] - last[bad[0]])//ref))
    # resets and lock indications, away from changes
    slack = 4*per + 8*sp
    for what, p in list(resets.items()) + ([("locked", 0)] if not out else []):
        x = lk[min(p, len(lk) - 1)]
        ch = np.maximum.accumulate(np.where(np.concatenate(([0], np.diff(x))) != 0, t, 0))
        ok = (t - ch > slack)
        e = x if what == "locked" else 1 - x
        o = g[what] if what == "locked" else g["rs_" + what]
        b = np.flatnonzero(ok & (o != e))
        if len(b):
            raise Violation("{}: {} is {} {} steps after the PLL {} (steps of {} a pixel)".format(
                name, "locked" if what == "locked" else "the reset of domain " + what, int(o[b[0]]), int(b[0] - ch[b[0]]),
                "locked" if x[b[0]] else "lost its lock" if ch[b[0]] else "started", per))
    # ratios and edges while locked
    x = lk.min(axis=0)
    ch = np.maximum.accumulate(np.where((x == 0) | ~calm, t, 0))
    ok = np.flatnonzero(t - ch > 2*per)
    n = 0
    if len(ok):
        for w in np.split(ok, np.flatnonzero(np.diff(ok) != 1) + 1):
            lo, hi = int(w[0]), int(w[-1]) + 1
            if hi - lo < 8*per:
                continue
            n += 1
            e0 = _edges(g["ck_pix"][lo:hi])
            for c, m in mults.items():
                e = _edges(g["ck_" + c][lo:hi])
                want = per/m
                if len(e) < 4 or (np.diff(e) != want).any():
                    raise Violation("{}: clock {} has periods {}, expected {} ({} a pixel of {} steps)".format(
                        name, c, sorted(set(np.diff(e).tolist()))[:4], want, m, per))
                lv = g["ck_" + c][lo:hi][int(e[0]):int(e[0]) + int(want)]
                if abs(int(lv.sum()) - want/2) > 1:
                    raise Violation("{}: clock {} is high for {} of {} steps".format(name, c, int(lv.sum()), want))
                # common edges
                if m == 1.25:
                    o = min(abs(int(i) - int(j)) for i in e0[:6] for j in e[:10])
                else:
                    o = min(abs(int(e0[1]) - int(j)) for j in e)
                tol = 3 if name == "s7split" and c.endswith("_o") else 0
                if o > tol:
                    raise Violation("{}: the edges of clock {} are off those of the pixel clock by {} of {} steps".format(name, c, o, per))
            if not out:
                ph = (int(e0[0]) + lo) % per
                if min(ph, per - ph) > per//4:
                    raise Violation("{}: the pixel clock rises {} of {} steps after the received clock{}".format(
                        name, ph, per, " (inverted pads)" if inv else ""))
            for q in obs:
                if q.startswith("vga_"):
                    e = _edges(g[q][lo:hi])
                    if len(e) < 4 or (np.diff(e) != per).any():
                        raise Violation("{}: the clock pad has periods {}, expected {}".format(name, sorted(set(np.diff(e).tolist()))[:4], per))
                elif q.startswith("gclk_"):
                    e = _edges(g[q][lo:hi])
                    if len(e) < 4 or (np.diff(e) != per/10*s.design.bufpll_div).any():
                        raise Violation("{}: the strobe buffer divides by {}, its clocks do not".format(name, s.design.bufpll_div))
    return Info(nontrivial=n > 0 and len(case["ops"]) > 1, labels=[name] + (["inverted"] if inv else []) + (["vga"] if vga else []))


@st.composite
def cases(draw):
    name = draw(st.sampled_from(sorted(DESIGNS)))
    ops = []
    if name in ("s6in", "s7in", "s7split"):
        if draw(st.booleans()):
            ops.append(["wait", draw(st.integers(0, 40))])
        ops.append(["reset", 0])
    op = st.one_of(
        st.tuples(st.just("wait"), st.integers(0, 60)),
        st.tuples(st.just("kill"), st.integers(0, 1), st.integers(0, 60), st.integers(0, 30)),
        st.tuples(st.just("reset"), st.integers(0, 1)),
        st.tuples(st.just("dcm"), st.integers(0, 1), st.integers(0, 30)))
    ops += [list(o) for o in draw(st.lists(op, min_size=1, max_size=6))]
    return {"name": name, "k": draw(st.integers(1, 4)), "inv": draw(st.booleans()), "vga": draw(st.booleans()),
            "lockn": draw(st.integers(1, 12)), "sys": draw(st.integers(1, 50)), "ops": ops}


def subs(tier):
    return [Sub("tree", fn, strategy=cases(), quick=300, thorough=10000,
                rule="histories of resets, lock losses and input changes over the clock tree of every clocking, clocks recorded at up to 160 steps a pixel; "
                     "non-trivial = at least two operations and a locked stretch of eight pixels whose clocks were compared")]
