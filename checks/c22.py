"""C22: word error counting."""
import numpy as np
from hypothesis import strategies as st

from lib.pbt import Sub, Info, Violation, rng
from lib.hw import sim
from lib.csr import WithBank, Play
from lib import tmds
from vsim.sim import Design, clocks

PID = "C22"


def dut(bits):
    def make():
        from litevideo.input.wer import WER
        m = WithBank(WER() if bits == 24 else WER(bits))
        d = m.ports(Design(m, ["sys", "pix"]))
        d.port("data", m.dut.data)
        return d
    return sim(("wer", bits), make)


def _bad():
    w = np.arange(1024)
    t = np.zeros(1024, dtype=int)
    for i in range(8):
        t += ((w >> i) ^ (w >> (i + 1))) & 1
    b = t > 4                      # more transitions than any data word has
    for c in tmds.CTRL:
        b[c] = False
    return b


BAD = _bad()
BADW = np.flatnonzero(BAD)
GOODW = np.flatnonzero(~BAD)


def words(case, n):
    g = rng("wer", case["seed"])
    out = []
    k = 0
    i = 0
    while k < n:
        kind, l = case["segs"][i % len(case["segs"])]
        i += 1
        l = max(1, l)
        if kind == "bad":
            w = g.choice(BADW, l)
        elif kind == "ctrl":
            w = np.array(tmds.CTRL)[g.integers(0, 4, l)]
        elif kind == "data":
            w = g.choice(GOODW, l)
        elif kind == "mix":
            w = np.where(g.random(l) < 0.1, g.choice(BADW, l), g.choice(GOODW, l))
        else:
            w = g.integers(0, 1024, l)
        out.append(w)
        k += l
    return np.concatenate(out)[:n].astype(np.uint64)


def fn(case):
    bits = case["bits"]
    P = 1 << bits
    s = dut(bits)
    ps, pv = case["ps"], case["pv"]
    pl = Play(s.design.csr)
    req = []                       # sys clock at which the value is requested, per read
    for gap, upd in case["ops"]:
        pl.idle(3 + gap*P*pv//ps//16)
        if upd:
            pl.wr("update", 1)
            req.append(pl.now())   # the register is loaded in the clock after the write
        else:
            req.append(None)
        pl.idle(2)
        pl.rd("value")
    pl.idle(4)
    T = pl.now()*ps + 4
    ts, doms = clocks(T, [("sys", ps, 0), ("pix", pv, case["ph"] % pv)])
    mask = np.array([s.mask(x) for x in doms], dtype=np.uint32)
    npix = sum("pix" in x for x in doms)
    w = words(case, npix + 1)
    r = s.run(len(mask), pl.bfms("sys") + [
        dict(kind="play", dom="pix", p=["data"], a=w[:, None])], mask=mask)
    res = pl.results(r)
    val = []
    for (n, t, v), q in zip(res, req):
        if q is None:
            if v != (val[-1][1] if val else 0):
                raise Violation("the value read changes from {} to {} without an update request".format(val[-1][1] if val else 0, v))
        val.append((q, v))
    # exists a phase of the periods for which every value is the count of a recently completed one.
    c = np.concatenate([[0], np.cumsum(BAD[w.astype(int)])])
    slackp, slacks = 8, 8
    obs = [(q, v) for q, v in val if q is not None]
    cand = np.arange(P)
    ok = np.ones(P, dtype=bool)
    worst = None
    nz = set()
    for q, v in obs:
        t = q*ps                                         # time of the request
        hi = (t - case["ph"] % pv)//pv                   # pix clocks so far
        lo = (t - slacks*ps - slackp*pv - case["ph"] % pv)//pv
        good = np.zeros(P, dtype=bool)
        seen = []
        for o in range(P):
            # period ends are at o + k*P (the word at the end itself is, or is not, part of the count)
            k1 = (hi - o)//P
            k0 = (lo - o)//P
            for k in range(k0, k1 + 1):
                e = o + k*P
                if e < P:
                    # nothing was completed yet (or the first, possibly shorter one)
                    a = max(0, e)
                    x = {0, int(c[a]), int(c[max(0, a - 1)]), int(c[min(len(w), a + 1)])}
                else:
                    x = {int(c[e] - c[e - P]), int(c[e] - c[e - P + 1])}
                if v in x:
                    good[o] = True
                seen += list(x)
        ok &= good
        if v:
            nz.add(v)
        if not ok.any():
            raise Violation("{} words per period: value {} read at clock {} (pix) is not the number of bad words of a period just completed (counts there: {}..{}) aligned like the {} values read before".format(
                P, v, hi, min(seen), max(seen), len(obs)))
    return Info(nontrivial=len(nz) >= 2, evals=len(obs), labels=["bits{}".format(bits)])


@st.composite
def cases(draw):
    return {"bits": draw(st.sampled_from([6, 6, 7, 8])), "ps": draw(st.integers(1, 7)), "pv": draw(st.integers(1, 7)),
            "ph": draw(st.integers(0, 6)), "seed": draw(st.integers(0, 2**20)),
            "segs": draw(st.lists(st.tuples(st.sampled_from(["bad", "ctrl", "data", "mix", "any"]), st.integers(1, 150)).map(list), min_size=1, max_size=6)),
            "ops": draw(st.lists(st.tuples(st.integers(0, 60), st.sampled_from([1, 1, 1, 0])).map(list), min_size=4, max_size=14))}


def alphabet(case):
    """every word, held for some periods"""
    bits = 6
    P = 1 << bits
    s = dut(bits)
    pl = Play(s.design.csr)
    pl.idle(P)
    lo, hi = case["lo"], case["hi"]
    for w in range(lo, hi):
        pl.idle(3*P - 4)
        pl.wr("update", 1).idle(2)
        pl.rd("value")
    pl.idle(4)
    n = pl.now()
    data = np.concatenate([np.zeros(P, dtype=np.uint64), np.repeat(np.arange(lo, hi), 3*P).astype(np.uint64)])
    ts, doms = clocks(n*2, [("sys", 2, 0), ("pix", 2, case["ph"])])
    mask = np.array([s.mask(x) for x in doms], dtype=np.uint32)
    r = s.run(len(mask), pl.bfms("sys") + [dict(kind="play", dom="pix", p=["data"], a=data[:, None])], mask=mask)
    for w, (_, t, v) in zip(range(lo, hi), pl.results(r)):
        if BAD[w] and v not in (P, P - 1) or not BAD[w] and v:
            raise Violation("a period of nothing but the {} word {:#012b} counts {} errors".format("bad" if BAD[w] else "good", w, v))
    return Info(evals=hi - lo, distinct=hi - lo)


def long(case):
    """wide counters: a share of bad words throughout, exact up to the words around the ends of a period"""
    bits = case["bits"]
    P = 1 << bits
    s = dut(bits)
    ps = max(8, P >> 12)
    pl = Play(s.design.csr)
    per = P//ps + 1
    pl.idle(2*per + 12)
    pl.wr("update", 1).idle(2)
    pl.rd("value").idle(2)
    k = case["every"]
    n = pl.now()*ps
    ts, doms = clocks(n, [("sys", ps, 0), ("pix", 1, 0)])
    mask = np.array([s.mask(x) for x in doms], dtype=np.uint32)
    bad, good = int(BADW[case["word"] % len(BADW)]), int(GOODW[(case["word"]*7) % len(GOODW)])
    data = np.full(1 if k == 1 else n, bad, dtype=np.uint64)       # the last word is held
    if k > 1:
        data[np.arange(n) % k != 0] = good
    r = s.run(len(mask), pl.bfms("sys") + [dict(kind="play", dom="pix", p=["data"], a=data[:, None])], mask=mask)
    v = pl.results(r)[0][2]
    if abs(v - P/k) > 2:
        raise Violation("periods of 2**{} words with every {}th bad: {} errors counted, expected {}".format(bits, k, v, P//k))
    return Info(evals=P)


def subs(tier):
    return [
            Sub("alphabet", alphabet, cases=[{"lo": k, "hi": k + 128, "ph": k//128 % 2} for k in range(0, 1024, 128)],
                rule="each of the 1024 words held for whole periods", exhaustive=True),
            Sub("long", long, cases=[{"bits": b, "every": k, "word": w} for b, k, w in [(10, 1, 3), (12, 1, 5), (12, 3, 1), (16, 1, 9), (17, 2, 0), (20, 1, 2)] + ([(24, 1, 4)] if tier != "quick" else [])],
                rule="counters of 10 to 24 bits"),
            Sub("periods", fn, strategy=cases(), quick=400, thorough=10000,
                rule="generated word sequences (data, control, erroneous), request times and clock ratios; non-trivial = at least two different non-zero counts were read")]
