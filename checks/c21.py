"""C21: channel alignment."""
import numpy as np
from hypothesis import strategies as st

from lib.pbt import Sub, Info, Violation, rng
from lib.hw import sim
from lib.csr import WithBank, Play
from vsim.sim import Design, clocks

PID = "C21"
ASSUMPTIONS = ["lines and blankings are at least twice the buffer depth (16 words by default), skews less than the depth",
               "alignment is expected after three complete blankings with constant skews"]
FIELDS = ("raw", "d", "c", "de")
DEPTH = 8
SETTLE = 3


def dut(depth=DEPTH, nchan=3):
    def make():
        from litevideo.input.chansync import ChanSync
        if (depth, nchan) == (DEPTH, 3):
            m = WithBank(ChanSync())
        else:
            m = WithBank(ChanSync(nchan, depth))
        d = m.ports(Design(m, ["sys", "pix"]))
        for n in ("valid_i", "chan_synced"):
            d.port(n, getattr(m.dut, n))
        for i in range(nchan):
            for f in FIELDS:
                d.port("i{}{}".format(i, f), getattr(getattr(m.dut, "data_in{}".format(i)), f))
                d.port("o{}{}".format(i, f), getattr(getattr(m.dut, "data_out{}".format(i)), f))
        return d
    return sim(("chansync", depth, nchan), make)


def names(x, nchan):
    return ["{}{}{}".format(x, i, f) for i in range(nchan) for f in FIELDS]


def fn(case):
    g = rng("c21", case["seed"])
    depth, nchan = case.get("depth", DEPTH), case.get("nchan", 3)
    base = 2*depth
    # what is sent at each time: same data enable on all channels
    de = []
    blank = []          # times at which a blanking has just ended
    for _ in range(2):
        for l, b in case["lines"]:
            de += [1]*max(l, base) + [0]*max(b, base)
            blank.append(len(de))
    de = [0]*(base) + de
    blank = [x + base for x in blank]
    n = len(de)
    de = np.array(de)
    sent = np.zeros((n, nchan, 4), dtype=np.int64)
    sent[:, :, 0] = g.integers(0, 1024, (n, nchan))
    sent[:, :, 1] = g.integers(0, 256, (n, nchan))
    sent[:, :, 2] = g.integers(0, 4, (n, nchan))
    sent[:, :, 3] = de[:, None]
    # history of skews and validity
    skew = np.zeros((n, nchan), dtype=int)
    valid = np.ones(n, dtype=int)
    stable = 0
    changes = []
    cur = [x % depth for x in case["skew"][:nchan]]
    ev = sorted((int(e[0]*n/1000), e[1:]) for e in case["events"])
    t0 = 0
    for t, e in ev + [(n, None)]:
        skew[t0:t] = cur
        t0 = t
        if e is None:
            break
        if e[0] == "skew":
            cur = [x % depth for x in e[1][:nchan]]
            changes.append(t)
        else:
            valid[t:t + e[1]] = 0
    idx = np.arange(n)[:, None] - skew
    ok = idx >= 0
    ins = np.where(ok[:, :, None], sent[np.maximum(idx, 0), np.arange(nchan)[None, :]], 0)
    s = dut(depth, nchan)
    ps, pv, ph = case["ps"], case["pv"], case["ph"] % case["pv"]
    T = n*pv
    pl = Play(s.design.csr)
    while pl.now()*ps < T - 4*ps:
        pl.rd("channels_synced").idle(2)
    ts, doms = clocks(T, [("sys", ps, 0), ("pix", pv, ph)])
    mask = np.array([s.mask(x) for x in doms], dtype=np.uint32)
    a = np.concatenate([ins.reshape(n, 4*nchan), valid[:, None]], axis=1)
    r = s.run(len(mask), pl.bfms("sys") + [
        dict(kind="play", dom="pix", p=names("i", nchan) + ["valid_i"], a=a.astype(np.uint64)),
        dict(kind="rec", dom="pix", name="o", p=names("o", nchan) + ["chan_synced"])], mask=mask)
    log = r.by["o"].log[:, 1:].astype(np.int64)
    m = len(log)
    out = log[:, :4*nchan].reshape(m, nchan, 4)
    flag = log[:, 4*nchan]
    # the flag: cleared by invalidity and disagreement, set by common control
    ode = out[:, :, 3]
    want = np.full(m, -1)
    all0 = ~ode.any(axis=1)
    some0 = ~ode.all(axis=1)
    want[all0] = 1
    want[some0 & ~all0] = 0
    want[valid[:m] == 0] = 0
    v = 0
    exp = np.zeros(m, dtype=int)
    for t in range(m):
        if want[t] >= 0:
            v = want[t]
        exp[t] = v
    for lat in (1, 2, 3):
        if (flag[lat:] == exp[:m - lat]).all():
            break
    else:
        t = int(np.flatnonzero(flag[1:] != exp[:m - 1])[0])
        raise Violation("synchronised flag is {} after clock {}: {}".format(
            int(flag[t + 1]), t, "invalid input" if not valid[t] else "data enables {}".format(ode[t].tolist())))
    # aligned between changes
    checked = 0
    for k, c in enumerate([0] + changes):
        end = (changes + [n])[k]
        b = [x for x in blank if x - base >= c + depth]
        if len(b) <= SETTLE:
            continue
        lo = b[SETTLE - 1] + base
        hi = min(end, m)
        if hi - lo < 20:
            continue
        t = np.arange(lo, hi)
        best = None
        for D in range(3*depth):
            bad = np.flatnonzero((out[lo:hi] != sent[t - D]).any(axis=(1, 2)))
            if not len(bad):
                break
            if best is None or bad[0] > best[0]:
                best = (int(bad[0]), D)
        else:
            x, D = best
            x = int(t[x])
            ch = [i for i in range(nchan) if (out[x, i] != sent[x - D, i]).any()]
            raise Violation("skews {}: after {} blankings with these skews, at clock {} the outputs do not carry the words sent together: channel {} gives {}, sent {} (de={})".format(
                skew[c].tolist(), SETTLE, x, ch[0], out[x, ch[0]].tolist(), sent[x - D, ch[0]].tolist(), int(de[x - D])))
        # flag on unless invalid since the last common blanking
        w = valid[max(0, lo - 70):hi]
        if w.all() and not flag[lo:hi].all():
            raise Violation("channels are aligned but the synchronised flag is low at clock {}".format(lo + int(np.flatnonzero(flag[lo:hi] == 0)[0])))
        checked += hi - lo
    for name, t, v in pl.results(r):
        now = (t*ps - ph)//pv
        lo = (t*ps - 6*ps - ph)//pv - 2
        if lo < 0:
            continue
        okv = set(flag[lo:min(m, now + 1)].tolist())
        if okv and v not in okv:
            raise Violation("channels_synced reads {} at clock {}, the flag was {}".format(v, now, sorted(okv)))
    sk = max(max(skew[-1]) - min(skew[-1]), max(skew[0]) - min(skew[0]))
    return Info(nontrivial=checked > 50 and sk > 0, evals=m, labels=["skew{}".format(sk), "depth{}".format(depth), "changes{}".format(len(changes))])


tri = st.lists(st.one_of(st.integers(0, DEPTH - 1), st.integers(0, 15)), min_size=4, max_size=4)
event = st.one_of(st.tuples(st.integers(50, 950), st.just("skew"), tri), st.tuples(st.integers(50, 950), st.just("inv"), st.integers(1, 60)))
cases = st.fixed_dictionaries({
    "depth": st.sampled_from([8, 8, 8, 8, 4, 5, 6, 12, 16]), "nchan": st.sampled_from([3, 3, 3, 3, 2, 4]),
    "seed": st.integers(0, 2**16), "ps": st.integers(1, 4), "pv": st.integers(1, 4), "ph": st.integers(0, 3), "skew": tri,
    "lines": st.lists(st.tuples(st.integers(16, 60), st.integers(16, 40)), min_size=4, max_size=9),
    "events": st.lists(event, max_size=2)})


def fixed(case):
    return fn({"seed": case["s"], "ps": 1, "pv": 1, "ph": 0, "skew": case["skew"], "lines": [(24, 16), (17, 20), (40, 30), (16, 16)], "events": []})


def long(case):
    """hundreds of lines, many changes"""
    g = rng("c21l", case)
    depth = [8, 8, 8, 5, 16][case["s"] % 5]
    lines = [(int(g.integers(16, 2*depth + 20)), int(g.integers(16, 2*depth + 8))) for _ in range(150)]
    at = np.sort(g.choice(np.arange(20, 980), 24, replace=False))
    ev = [(int(t), "skew", [int(x) for x in g.integers(0, depth, 4)]) if i % 3 == 2 else (int(t), "inv", int(g.integers(1, 8))) for i, t in enumerate(at)]
    if case["s"] % 2:
        ev = ev[:3]
    return fn({"seed": case["s"], "ps": 1, "pv": 1, "ph": 0, "depth": depth, "skew": [int(x) for x in g.integers(0, depth, 4)], "lines": lines, "events": ev})


def subs(tier):
    allsk = [[a, b, c] for a in range(DEPTH) for b in range(DEPTH) for c in range(DEPTH) if min(a, b, c) == 0]
    return [
        Sub("histories", fn, strategy=cases, quick=400, thorough=10000,
            rule="generated lines with skews, skew changes and validity drops; non-trivial = unequal skews and more than 50 clocks compared after settling"),
        Sub("skews", fixed, cases=[{"skew": k, "s": i} for i, k in enumerate(allsk)], rule="every combination of skews below the depth"),
        Sub("long", long, cases=lambda t: [{"s": i} for i in range(24 if t == "quick" else 500)],
            rule="300 lines in a row with up to 8 skew changes and 16 validity drops"),
    ]
