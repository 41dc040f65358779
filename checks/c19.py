"""C19: terminal bus."""
import numpy as np
from hypothesis import strategies as st

from lib.pbt import Sub, Info, Violation, rng
from lib import term
from lib.term import FRAME, SIZE, FONT, LINE, X0, Y0

PID = "C19"
ASSUMPTIONS = ["the master holds an access until it is acknowledged; addresses lie in the documented 0x22c0 bytes",
               "a byte written within 40 display clocks before a cell line is shown may or may not be visible in it"]
WINDOW = 40


def init():
    return np.concatenate([term.initial("screen-init.bin", FONT), term.initial("cp437.bin", SIZE - FONT)])


def ops(case):
    """rows adr, we, dat and the gaps"""
    g = rng("c19", case["seed"])
    n = case["n"]
    k = case["where"]
    if k == "any":
        adr = g.integers(0, SIZE, n)
    elif k == "few":
        pool = g.integers(0, SIZE, 1 + case["seed"] % 6)
        adr = pool[g.integers(0, len(pool), n)]
    elif k == "seq":
        adr = (int(g.integers(0, SIZE)) + np.arange(n)) % SIZE
    elif k == "edge":
        pool = np.array([0, 1, FONT - 1, FONT, FONT + 1, SIZE - 1, 255, 256, 4095, 4096, 8191, 8192])
        adr = pool[g.integers(0, len(pool), n)]
    else:
        # powers of two apart
        b = int(g.integers(0, SIZE))
        adr = b ^ (1 << g.integers(0, 14, n))
        adr = np.where(adr < SIZE, adr, b)
    we = (g.random(n) < case["pw"]/10).astype(int)
    dat = g.integers(0, 256, n)
    it = np.stack([adr, we, dat], axis=1)
    if case.get("all"):
        a = np.arange(SIZE)
        if case["all"] == 2:
            a = a[::-1]
        it = np.concatenate([it, np.stack([a, 0*a, 0*a], axis=1)])
    return it


def bus(case, nvga, ps, pv, ph):
    it = ops(case)
    g = rng("c19n", case["seed"])
    gaps = case["gaps"]
    junk = [int(x) for x in g.integers(0, 2**30, 7)] if case["junk"] else []
    noise = case["noise"] or [(0, 0)]
    r, ts = term.run(term.dut(), it, gaps, junk, noise, nvga, ps, pv, ph)
    src = r.by["src"].log
    acc = [int(x) for x in (src[:, 0] if src.ndim > 1 else src)]
    blog = r.by["bus"].log
    if len(acc) != len(it):
        raise Violation("{} of {} accesses were acknowledged in time".format(len(acc), len(it)))
    # every acknowledge belongs to one access
    if len(blog) != len(acc):
        raise Violation("{} acknowledges for {} accesses".format(len(blog), len(acc)))
    for i, row in enumerate(blog):
        if not row[1]:
            raise Violation("acknowledge without an access (at step {})".format(int(row[0])))
    m = init()
    wr = []
    last = {}
    nrd = 0
    for i, (a, we, d) in enumerate(it.tolist()):
        if we:
            m[a] = d
            wr.append((acc[i], a, d))
            last[a] = i
        else:
            nrd += a in last
            if int(blog[i, 3]) != int(m[a]):
                raise Violation("access {}: reading address {:#x} gives {:#x}, it holds {:#x} ({})".format(
                    i, a, int(blog[i, 3]), int(m[a]), "written by access {}".format(last[a]) if a in last else "initial"))
    return it, acc, ts, m, wr, r, nrd


def fn(case):
    gap = max(case["gaps"] or [0])
    ps, pv = case["ps"], case["pv"]
    n = (len(ops(case))*(4 + gap) + 60)*ps//pv + 50
    it, acc, ts, m, wr, r, nrd = bus(case, n, ps, pv, case["ph"])
    return Info(nontrivial=nrd > 3, evals=len(it), labels=[case["where"]])


def show(case):
    """writes while the picture is shown"""
    ps, pv, ph = case["ps"], case["pv"], case["ph"]
    nv = 2*FRAME + 4*LINE
    # spread the accesses over the time
    case = dict(case, n=case["n"])
    per = max(2, int(nv*pv/ps/case["n"]) - 4)
    case["gaps"] = [per, 0, 0, per//2, per//3 + 1] if per < 3000 else [3000, 0, 1500]
    it, acc, ts, m, wr, r, nrd = bus(case, nv, ps, pv, ph)
    v = r.by["v"].log[:, 1].astype(np.int64)
    vt = r.by["v"].log[:, 0].astype(np.int64)       # step of each vga clock
    f = [x for x in term.frames(v) if x + FRAME + 1 <= len(v)]
    if not f:
        raise Violation("no complete frame")
    f = f[0]
    got = term.check_timing(v, f)
    # memory over time: per address, list of (vga clock, value)
    hist = {}
    for step, a, d in wr:
        c = int(np.searchsorted(vt, step))
        hist.setdefault(a, []).append((c, d))
    m0 = init()
    # clock at which each cell line is shown
    y = np.arange(480)
    shown = f + (y[:, None] + Y0)*LINE + X0 + 8*np.arange(80)[None, :]
    base = term.render(m0)
    # cells touched by writes are redone one by one
    dirty = set()
    for a in hist:
        if a < FONT:
            row, col = a//2//80, a//2 % 80
            for yy in range(16*row, 16*row + 16):
                dirty.add((yy, col))
    fontdirty = {a for a in hist if a >= FONT}
    # cells showing a changed font line
    chars = {}
    for a in fontdirty:
        chars.setdefault((a - FONT)//16, []).append((a - FONT) % 16)
    c0 = m0[0:FONT:2]
    for ch, ls in chars.items():
        for idx in np.flatnonzero(c0 == ch).tolist():
            for l in ls:
                dirty.add((16*(idx//80) + l, idx % 80))
    mask = np.ones((480, 640), dtype=bool)
    for yy, col in dirty:
        mask[yy, 8*col:8*col + 8] = False
    bad = np.argwhere((got != base) & mask)
    if len(bad):
        yy, xx = (int(q) for q in bad[0])
        raise Violation("pixel ({}, {}) is {:#x} although nothing it depends on was written".format(xx, yy, int(got[yy, xx])))

    def val(a, t):
        """the values a byte may have had when it was fetched for clock t"""
        h = hist.get(a, [])
        v0 = {int(m0[a])}
        for c, d in h:
            if c <= t - WINDOW:
                v0 = {d}
            elif c <= t:
                v0.add(d)
        return v0
    changed = 0
    for yy, col in sorted(dirty):
        t = int(shown[yy, col])
        a = 2*(yy//16*80 + col)
        px = got[yy, 8*col:8*col + 8].tolist()
        ok = False
        for ch in val(a, t):
            for co in val(a + 1, t):
                fg, bg = int(term.PALETTE[co & 15]), int(term.PALETTE[co >> 4])
                for fb in val(FONT + 16*ch + yy % 16, t):
                    if px == [fg if fb >> (7 - i) & 1 else bg for i in range(8)]:
                        ok = True
        if not ok:
            raise Violation("line {} of cell ({}, {}) shows {}; its bytes at that time: character {}, colour {}".format(
                yy % 16, col, yy//16, [hex(x) for x in px], sorted(val(a, t)), sorted(val(a + 1, t))))
        if px != base[yy, 8*col:8*col + 8].tolist():
            changed += 1
    return Info(nontrivial=changed > 10, evals=len(dirty), labels=["display"])


clk = {"ps": st.integers(1, 3), "pv": st.integers(1, 3), "ph": st.integers(0, 2)}
noise = st.lists(st.sampled_from([(0, 0), (0, 1), (1, 0)]), max_size=5)
cases = st.fixed_dictionaries(dict(clk, seed=st.integers(0, 2**16), n=st.integers(1, 200), where=st.sampled_from(["any", "few", "few", "seq", "edge", "bits"]),
                                   pw=st.integers(1, 9), gaps=st.lists(st.sampled_from([0, 0, 0, 1, 2, 5]), max_size=5), junk=st.booleans(), noise=noise))
shows = st.fixed_dictionaries(dict(clk, seed=st.integers(0, 2**16), n=st.integers(50, 1500), where=st.sampled_from(["any", "seq", "bits"]),
                                   pw=st.integers(5, 9), junk=st.booleans(), noise=noise))


def subs(tier):
    return [
        Sub("bus", fn, strategy=cases, quick=400, thorough=10000,
            rule="generated access histories with gaps, back-to-back accesses and idle bus noise; non-trivial = more than 3 reads of written bytes"),
        Sub("memory", fn, strategy=cases.flatmap(lambda c: st.integers(1, 2).map(lambda k: dict(c, all=k))), quick=40, thorough=600,
            rule="the whole RAM is read back after a generated history"),
        Sub("display", show, strategy=shows, quick=25, thorough=300,
            rule="accesses while whole frames are shown; non-trivial = more than 10 cell lines changed"),
    ]
