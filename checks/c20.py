"""C20: character alignment."""
import numpy as np
from hypothesis import strategies as st

from lib.pbt import Sub, Info, Violation, rng
from lib.hw import sim
from lib.csr import WithBank, Play
from lib import tmds
from vsim.sim import Design, clocks

PID = "C20"
MIN = 8           # tokens in a row that are required (default); one more always suffices (the first one sets the position)
SETTLE = 6        # clocks from the last token to the outputs


def dut(rc=8):
    def make():
        from litevideo.input.charsync import CharSync
        m = WithBank(CharSync() if rc == 8 else CharSync(rc))
        d = m.ports(Design(m, ["sys", "pix"]))
        for n in ("raw_data", "synced", "data"):
            d.port(n, getattr(m.dut, n))
        return d
    return sim(("charsync", rc), make)


def bits(case):
    g = rng("c20", case["seed"])
    out = []

    def words(ws):
        a = np.asarray(ws, dtype=np.int64)
        out.append(((a[:, None] >> np.arange(10)) & 1).reshape(-1))
    for p in case["parts"]:
        k, n = p[0], p[1]
        if k == "tok":
            words([tmds.CTRL[p[2] % 4]]*n if p[2] < 4 else np.array(tmds.CTRL)[g.integers(0, 4, n)])
        elif k == "data":
            words(tmds.encode([(int(x), 0, 1) for x in g.integers(0, 256, n)]))
        elif k == "rand":
            words(g.integers(0, 1024, n))
        elif k == "slip":
            out.append(g.integers(0, 2, n % 10))
        elif k == "hit":
            # isolated tokens in data
            w = tmds.encode([(int(x), 0, 1) for x in g.integers(0, 256, n)])
            for i in range(0, n, 1 + p[2]):
                w[i] = tmds.CTRL[int(g.integers(0, 4))]
            words(w)
        elif k == "runs":
            # many runs of tokens, each after one to three words of any value, at changing positions
            for _ in range(n):
                words(g.integers(0, 1024, int(g.integers(1, 4))))
                words(np.array(tmds.CTRL)[g.integers(0, 4, int(g.integers(5, 12)))] if p[2] & 1 else [tmds.CTRL[int(g.integers(0, 4))]]*int(g.integers(7, 11)))
                if g.random() < 0.3:
                    out.append(g.integers(0, 2, int(g.integers(1, 10))))
    b = np.concatenate(out)
    return b[:len(b)//10*10]


def analyse(raw, rc=MIN):
    """window values and the candidates (position or None) at every clock"""
    n = len(raw)
    prev = np.concatenate([[0], raw[:-1]])
    w20 = prev | raw << 10
    sl = np.stack([(w20 >> i) & 1023 for i in range(10)], axis=1)        # (n, 10)
    hit = np.isin(sl, tmds.CTRL)
    cand = []
    cur = {None}
    run = [0]*10                      # clocks in a row with a token at p
    sure = [0]*10                     # ... and nowhere else
    change = -10**9
    since = []
    for t in range(n):
        h = np.flatnonzero(hit[t])
        new = set(cur)
        for p in range(10):
            if hit[t, p]:
                run[p] += 1
                sure[p] = sure[p] + 1 if len(h) == 1 else 0
            else:
                run[p] = sure[p] = 0
            if run[p] >= rc:
                new.add(p)
        for p in h:
            if sure[p] > rc:
                new = {int(p)}
        if new != cur:
            change = t
            cur = new
        cand.append(frozenset(cur))
        since.append(t - change)
    return sl, cand, since


def fn(case):
    b = bits(case)
    raw = (b.reshape(-1, 10) << np.arange(10)).sum(axis=1)
    raw = np.append(raw, 0)            # the window of the last word ends in the next one
    n = len(raw)
    if n < 5:
        return Info(nontrivial=False, evals=0)
    rc = case.get("rc", 8)
    s = dut(rc)
    pad = 12
    ps, pv = case["ps"], case["pv"]
    ph = case["ph"] % pv
    T = (n + pad)*pv + 20*ps
    pl = Play(s.design.csr)
    while pl.now()*ps < T - 4*ps:
        pl.rd("char_synced").rd("ctl_pos").idle(1)
    ts, doms = clocks(T, [("sys", ps, 0), ("pix", pv, ph)])
    mask = np.array([s.mask(x) for x in doms], dtype=np.uint32)
    ins = np.concatenate([raw, np.repeat(raw[-1:]*0, pad)]).astype(np.uint64)
    r = s.run(len(mask), pl.bfms("sys") + [
        dict(kind="play", dom="pix", p=["raw_data"], a=ins[:, None]),
        dict(kind="rec", dom="pix", name="o", p=["synced", "data"])], mask=mask)
    o = r.by["o"].log[:, 1:].astype(np.int64)
    sl, cand, since = analyse(raw, rc)
    # synced never falls, and is as expected where determined
    sy = o[:n + pad - 2, 0]
    if (np.diff(sy) < 0).any():
        raise Violation("synchronisation is lost at clock {}".format(int(np.flatnonzero(np.diff(sy) < 0)[0])))
    for t in range(n):
        c = cand[t]
        w = cand[max(0, t - SETTLE):t + 1]
        if all(x == frozenset([None]) for x in w):
            if sy[t]:
                raise Violation("locked at clock {} although no position had {} control tokens in a row".format(t, rc))
        elif None not in cand[max(0, t - SETTLE)] and None not in c and not sy[t]:
            raise Violation("not locked at clock {}, after {} control tokens in a row at one position".format(t, rc + 1))
    # words
    known = [len(cand[t]) == 1 and None not in cand[t] and since[t] >= SETTLE and cand[min(n - 1, t + SETTLE)] == cand[t] for t in range(n)]
    idx = np.flatnonzero(known)
    if len(idx):
        p = np.array([next(iter(cand[t])) for t in idx])
        e = sl[idx, p]
        best = None
        for lat in range(1, 5):
            x = o[np.minimum(idx + lat, len(o) - 1), 1]
            bad = np.flatnonzero(x != e)
            if not len(bad):
                break
            if best is None or bad[0] > best[0]:
                best = (int(bad[0]), lat, int(x[bad[0]]))
        else:
            k, lat, x = best
            raise Violation("locked to position {}, the word {:#x} sent at clock {} is delivered as {:#x}".format(
                int(p[k]), int(e[k]), int(idx[k]), x))
    # registers
    for name, t, v in pl.results(r):
        now = (t*ps - ph)//pv
        lo = (t*ps - 6*ps - ph)//pv - SETTLE - 2
        if lo < 0 or lo >= n:
            continue
        c = set().union(*cand[lo:min(n, now + 1)])
        if name == "char_synced":
            ok = {0 if x is None else 1 for x in c}
        else:
            ok = {0 if x is None else x for x in c}
        if v not in ok:
            raise Violation("{} reads {} at clock {}, expected {}".format(name, v, now, sorted(ok)))
    pos = {x for c in cand for x in c if len(c) == 1 and x is not None}
    return Info(nontrivial=len(idx) > 20, evals=n, labels=["lock{}".format(p) for p in pos] or ["no lock"])


@st.composite
def part(draw):
    k = draw(st.sampled_from(["tok", "tok", "tok", "data", "rand", "slip", "slip", "hit"]))
    if k == "tok":
        n = draw(st.one_of(st.integers(5, 11), st.integers(5, 11), st.integers(3, 18), st.integers(1, 40)))
        return [k, n, draw(st.integers(0, 7))]
    if k == "slip":
        return [k, draw(st.integers(1, 9))]
    if k == "hit":
        return [k, draw(st.integers(2, 40)), draw(st.integers(1, 3))]
    return [k, draw(st.integers(1, 60))]


cases = st.fixed_dictionaries({"seed": st.integers(0, 2**16), "ps": st.integers(1, 4), "pv": st.integers(1, 4), "ph": st.integers(0, 3), "rc": st.sampled_from([8, 8, 8, 8, 4, 5, 12, 16]),
                               "parts": st.lists(part(), min_size=2, max_size=14)})


def offsets(case):
    """every offset, ending in data"""
    return fn({"seed": case["o"], "ps": 1, "pv": 1, "ph": 0,
               "parts": [["slip", case["o"]], ["rand", 5], ["tok", 12, case["k"]], ["data", 300], ["tok", 20, 4], ["data", 300],
                         ["slip", case["s"]], ["data", 40], ["tok", 12, 4], ["data", 200]]})


def subs(tier):
    return [
        Sub("streams", fn, strategy=cases, quick=500, thorough=12000,
            rule="generated bit streams of token runs, data, random words and bit slips; non-trivial = more than 20 words checked while locked"),
        Sub("offsets", offsets, cases=[{"o": o, "k": k, "s": s} for o in range(10) for s in range(1, 10) for k in ((o + s) % 8,)],
            rule="all bit offsets and slips"),
        Sub("long", lambda c: fn({"seed": c["s"], "ps": 1, "pv": 1 + c["s"] % 2, "ph": 0, "rc": 8 if c["s"] % 4 else 12, "parts": [["runs", 500, c["s"] // 2], ["data", 60]]}),
            cases=lambda t: [{"s": i} for i in range(32 if t == "quick" else 1000)],
            rule="long streams of 500 token runs after words of any value, at changing positions"),
    ]
