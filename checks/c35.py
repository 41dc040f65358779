"""C35: a reset brings every component back to how it was at power-up."""
import numpy as np
from hypothesis import strategies as st

from lib.pbt import Sub, Info, Violation, rng
from lib.hw import sim
from lib import tmds
from vsim.sim import clocks, HarnessError

PID = "C35"
HOLD = 24          # clocks of the slowest domain the reset lasts
ASSUMPTIONS = ["all clock domains of the component are reset together, for at least {} clocks of the slowest".format(HOLD),
               "memories that software or the bus can write (character RAM, EDID contents) keep what was written and are not compared",
               "data next to a low valid is not compared"]

TOK = list(tmds.CTRL)


def _c04(name):
    def f():
        from checks import c04
        return c04.dut(name)
    return f


def _mod(n, fn, *a):
    def f():
        import importlib
        return getattr(importlib.import_module("checks." + n), fn)(*a)
    return f


def _edid():
    from checks import c27
    return c27.dut(dict(mem="default", size=128, pupd=0, inv=0, en=1, notif=1))


def _term():
    from lib import term
    return term.dut()


# data that counts only next to a valid
STREAM = {"o_valid": ["o_"]}
CORE = {"valid": ["de", "hsync", "vsync", "data"], "de": ["data"], "cv": ["ca", "cw"]}
SLOW = [72, 100, 150, 300]
# name: (simulator, gates, preferred values, durations of a value)
MODS = {
    "rgb2ycbcr": (_c04("rgb2ycbcr"), STREAM, {}, {}),
    "ycbcr2rgb": (_c04("ycbcr2rgb"), STREAM, {}, {}),
    "rgb2rgb16f": (_c04("rgb2rgb16f"), STREAM, {}, {}),
    "rgb16f2rgb": (_c04("rgb16f2rgb"), STREAM, {}, {}),
    "floatmult": (_c04("floatmult"), STREAM, {}, {}),
    "floatadd": (_c04("floatadd"), STREAM, {}, {}),
    "444to422": (_mod("c05", "down", 8), STREAM, {}, {}),
    "422to444": (_mod("c05", "up", 8), STREAM, {"i_reset": [0, 0, 0, 1]}, {}),
    "encoder": (_mod("c09", "dut"), {}, {}, {"de": [8, 30]}),
    "decoder": (_mod("c10", "dut"), {}, {"w": TOK}, {}),
    "timing": (_mod("c11", "dut"), {"valid": ["de", "hsync", "vsync", "last"]},
               dict({"i_valid": [1, 1, 1, 0]}, **{p: list(range(1, 6)) for p in ("hres", "hsync", "vres", "vsync")}, **{p: [5, 6, 9] for p in ("hscan", "vscan")}),
               dict({"i_valid": [1, 400]}, **{p: [400, 1000] for p in ("hres", "hsync", "vres", "vsync", "hscan", "vscan")})),
    "core": (_mod("c12", "dut", "rgb", 16), CORE, {}, {}),
    "core422": (_mod("c12", "dut", "ycbcr422", 16), CORE, {}, {}),
    "genlock": (_mod("c32", "dut", "rgb", 16), CORE, {}, {"g_vsync": [5, 40]}),
    "initiator": (_mod("c13", "dut", 32), {"valid": ["o_"]}, {}, {}),
    "bars": (_mod("c16", "dut", "bars"), {"valid": ["r", "g", "b"]}, {"hres": [8, 16, 24]}, {"hres": [50, 300], "en": [1, 100]}),
    "lines": (_mod("c16", "dut", "lines"), {"valid": ["r", "g", "b"]}, {"hres": [3, 8, 16]}, {"hres": [50, 300], "en": [1, 100]}),
    "dots": (_mod("c16", "dut", "dots"), {"valid": ["r", "g", "b"]}, {"hres": [3, 8, 16]}, {"hres": [50, 300], "en": [1, 100]}),
    "charsync": (_mod("c20", "dut"), {}, {"raw_data": TOK}, {"raw_data": [1, 3, 12, 30]}),
    "wer": (_mod("c22", "dut", 6), {}, {"data": TOK}, {}),
    "syncpol": (_mod("c23", "dut", False), {}, {}, {"c": [3, 20], "de": [3, 20], "valid_i": [50, 200]}),
    "syncpol-hdmi": (_mod("c23", "dut", True), {}, {}, {"c": [3, 20], "de": [3, 20], "valid_i": [50, 200]}),
    "resdet": (_mod("c24", "dut"), {}, {"valid_i": [1, 1, 1, 0]}, {"de": [3, 20], "vsync": [20, 100], "valid_i": [100, 300]}),
    "frame": (_mod("c25", "dut", "rgb", 64, 16), {"valid": ["sof", "pixels"]}, {"valid_i": [1, 1, 1, 0]}, {"de": [3, 20], "vsync": [20, 100], "valid_i": [100, 300]}),
    "frame422": (_mod("c25", "dut", "ycbcr422", 32, 16), {"valid": ["sof", "pixels"]}, {"valid_i": [1, 1, 1, 0]}, {"de": [3, 20], "vsync": [20, 100], "valid_i": [100, 300]}),
    "dma": (_mod("c26", "dut", 32, 2, 32, 24), {"cv": ["ca", "cw"], "wv": ["we", "wd"]}, {"sof": [0, 0, 1]}, {}),
    "terc4": (_mod("c31", "dut"), {}, {"raw": TOK + list(tmds.TERC4)}, {"raw": [1, 8, 12], "valid": [100, 300]}),
    "edid": (_edid, {}, {}, {"scl": SLOW, "sda": SLOW, "notif": SLOW}),
    "terminal": (_term, {"ack": ["dat_r"]}, {}, {"req": [3, 10]}),
}
DOMS = {"core": ("sys", "vid"), "core422": ("sys", "vid"), "genlock": ("sys", "vid"), "initiator": ("sys", "vid"), "syncpol": ("pix", "pix_o"),
        "syncpol-hdmi": ("pix", "pix_o"), "terminal": ("sys", "vga"), "decoder": ("pix",)}
for _n in ("charsync", "wer", "resdet", "frame", "frame422", "terc4"):
    DOMS[_n] = ("sys", "pix")
TIED = {"syncpol", "syncpol-hdmi"}          # pix_o is another name of pix


def look(t, name):
    """the entry of a port: its own or that of its beginning"""
    if name in t:
        return t[name]
    r = [k for k in t if name.startswith(k)]
    return t[max(r, key=len)] if r else None


def dut(name):
    base = MODS[name][0]()

    def make():
        d = base.make()

        def late(L, dd):
            for n in sorted(L.cds):
                if L.cds[n].rst is not None:
                    dd.port("rst:" + n, L.cds[n].rst)
        d.late.append(late)
        return d
    s = sim(("reset", name), make)
    s.csr = getattr(base.design, "csr", None)
    return s


def segments(g, width, n, pool, holds):
    """values held for a while"""
    out = np.zeros(n, dtype=np.uint64)
    k = 0
    while k < n:
        h = int(g.choice(holds)) if holds else 1
        m = int(g.integers(1, h + 1)) if h < 64 else h + int(g.integers(0, 9))
        if not holds:
            # noise, or one value for a while
            m = int(g.integers(1, 33))
        m = min(m, n - k)
        x = g.random()
        if pool and x < .6:
            v = np.array(pool, dtype=np.uint64)[g.integers(0, len(pool), 1 if holds else m)]
        elif x < .8 or width > 8:
            v = g.integers(0, 2**width, 1 if holds else m, dtype=np.uint64)
        else:
            v = np.array([int(g.choice([0, 1, 2**width - 1]))], dtype=np.uint64)
        out[k:k + m] = v
        k += m
    return out


def bus(g, csr, n):
    """noise of register accesses: (address, write, data)"""
    a = [sc for adr, size in csr.map.values() for sc in adr]
    rows = np.zeros((n, 3), dtype=np.uint64)
    rows[:, 0] = np.array(a)[g.integers(0, len(a), n)]
    rows[:, 1] = g.random(n) < g.choice([.05, .3, .7])
    small = g.integers(0, 9, n)
    rows[:, 2] = np.where(g.random(n) < .8, small, g.integers(0, 2**csr.data_width, n))
    return rows


def fn(case):
    name = case["mod"]
    _, gates, pools, holds = MODS[name]
    s = dut(name)
    doms = DOMS.get(name, ("sys",))
    per = {x: (case["per"][0] if name in TIED else case["per"][i]) for i, x in enumerate(doms)}
    slow = max(per.values())
    pre, hold, post = case["pre"]*slow, (HOLD + case["hold"])*slow, case["post"]*slow
    T = pre + hold + post
    ts, ds = clocks(T, [(x, per[x], 0 if name in TIED or not i else case["ph"] % per[x]) for i, x in enumerate(doms)])
    mask = np.array([s.mask(x) for x in ds], dtype=np.uint32)
    ts = np.array(ts)
    n = len(ts)
    rst = [p for p in s.pnames if p.startswith("rst:") and p not in s._drv_names]
    ins = [p for p in s.pnames if p not in s._drv_names and not p.startswith("rst:") and not p.startswith("csr_")]
    outs = [p for p in s.pnames if p in s._drv_names and not p.startswith("rst:")]
    if not rst or not outs:
        raise HarnessError("{}: no reset or no output".format(name))
    g = rng("c35", case["seed"])
    # one value per step: an input may change at any clock of any domain
    cols = [segments(g, len(s.design.ports[p]), n, look(pools, p), look(holds, p)) for p in ins]
    c = bus(g, s.csr, n) if s.csr is not None else None
    if name == "terminal":
        # the character RAM is not reset
        cols[ins.index("we")][ts < pre + hold] = 0
    # the fresh component is powered up when the other one is reset
    k1 = int(np.searchsorted(ts, pre))
    a = np.stack(cols + [np.zeros(n, dtype=np.uint64)], axis=1)
    during = ((ts >= pre) & (ts < pre + hold)).astype(np.uint64)

    def run(k):
        bf = [dict(kind="play", dom=None, p=rst, a=np.repeat(during[k:, None], len(rst), axis=1))]
        if ins:
            bf.append(dict(kind="play", dom=None, p=ins, a=a[k:, :len(ins)]))
        if c is not None:
            bf.append(dict(kind="play", dom=None, p=["csr_adr", "csr_we", "csr_dat_w"], a=c[k:]))
        bf.append(dict(kind="rec", dom=None, name="o", p=outs))
        o = s.run(n - k, bf, mask=mask[k:]).by["o"].log[:, 1:]
        return np.vstack([np.zeros((k, len(outs)), dtype=np.uint64), o])
    x, y = run(0), run(k1)
    k0 = int(np.searchsorted(ts, pre + hold)) + 1
    keep = np.ones((n, len(outs)), dtype=bool)
    for gt, names in gates.items():
        gi = outs.index(gt)
        for i, o in enumerate(outs):
            if o != gt and o != "o_ready" and any(o == m or (o.startswith(m) and m[-1] in "_012") for m in names):
                keep[:, i] &= y[:, gi] != 0
    bad = ((x != y) & keep)[k0:]
    if bad.any():
        r, i = [int(v[0]) for v in np.nonzero(bad)]
        raise Violation("{}: {} clocks of the simulation after a reset, {} is {:#x}; after power-up and the same inputs it is {:#x}".format(
            name, r, outs[i], int(x[k0 + r, i]), int(y[k0 + r, i])))
    moved = int((x[k0 + 1:] != x[k0:-1]).any(axis=1).sum())
    dirty = bool((x[:k1] != x[:1]).any())
    return Info(nontrivial=dirty and moved >= 10, evals=n - k0, labels=[name, "moved" if moved >= 10 else "quiet"])


@st.composite
def cases(draw):
    name = draw(st.sampled_from(sorted(MODS)))
    big = name == "edid"
    return {"mod": name, "per": [draw(st.integers(1, 5)) for _ in range(2)], "ph": draw(st.integers(0, 4)), "seed": draw(st.integers(0, 2**30)),
            "pre": draw(st.integers(1, 6000 if big else 600)), "hold": draw(st.integers(0, 40)), "post": draw(st.sampled_from([6000] if big else [100, 400, 1000]))}


def subs(tier):
    return [Sub("power-up", fn, strategy=cases(), quick=1500, thorough=40000,
                rule="any inputs for a while, a reset of all domains, and further inputs, against a component powered up at the reset; non-trivial = "
                     "the outputs changed before the reset and at least ten times after it")]
