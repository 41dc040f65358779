"""C09: TMDS encoding."""
import numpy as np
from hypothesis import strategies as st

from lib import tmds
from lib.pbt import Sub, Info, Violation, rng
from lib.hw import sim
from vsim.sim import Design

PID = "C09"
MAXLAT = 16


def dut():
    def make():
        from litevideo.output.hdmi.encoder import Encoder
        m = Encoder()
        d = Design(m)
        for n in ("d", "c", "de", "out"):
            d.port(n, getattr(m, n))
        return d
    return sim("enc", make)


def run(seq):
    """words, one per clock, first word belongs to clock 0"""
    n = len(seq)
    a = np.array(list(seq) + [(0, 0, 0)], dtype=np.uint64)
    r = dut().run(n + MAXLAT, [dict(kind="play", dom="sys", p=["d", "c", "de"], a=a),
                               dict(kind="rec", dom="sys", name="o", p=["out"])], clock="sys")
    return r.by["o"].log[:, 1].astype(np.int64)


_lat = {}


def latency():
    """clocks from an input to its word, from one fixed line"""
    if not _lat:
        seq = [(0, k % 4, 0) for k in (0, 1, 3, 2, 0, 2, 1, 3, 3, 0)] + [(k*37 % 256, 0, 1) for k in range(40)]
        o = run(seq).tolist()
        e = tmds.encode(seq)
        m = [l for l in range(1, MAXLAT) if o[l:l + len(e)] == e]
        # without a match keep the documented four stages, so that the failing line is reported
        _lat["l"] = m[0] if m else 4
    return _lat["l"]


def check(seq, shrink=True):
    L = latency()
    o = run(seq)[L:L + len(seq)]
    e = np.array(tmds.encode(seq), dtype=np.int64)
    bad = np.flatnonzero(o != e)
    if len(bad):
        k = int(bad[0])
        s = k
        while s > 0 and seq[s - 1][2]:
            s -= 1
        s = max(0, s - 1)
        raise Violation("after {} clocks {} since blanking, (data, control, de) = {} is sent as {:010b}, DVI 1.0 says {:010b}".format(
            L, k - s, tuple(int(x) for x in seq[k]), int(o[k]), int(e[k])),
            case={"seq": [[int(x) for x in r] for r in seq[s:k + 2]]} if shrink else None)
    # independent invariants of the words sent
    disp = 0
    for (d, c, de), w in zip(seq, o.tolist()):
        if not de:
            disp = 0
            continue
        disp += 2*bin(w).count("1") - 10
        q = w & 0x1ff
        if abs(disp) > 10:
            raise Violation("the running disparity of the line reaches {}".format(disp))
        if sum((q >> i ^ q >> (i + 1)) & 1 for i in range(8)) > 5:
            raise Violation("word {:010b} is not transition minimised".format(w))
    return e


def explicit(case):
    if "seq" not in case:
        return bulk(case)
    seq = [tuple(x) for x in case["seq"]]
    check(seq, shrink=False)
    nd = sum(x[2] for x in seq)
    return Info(nontrivial=nd >= 3 and any(seq[i][2] and not seq[i + 1][2] for i in range(len(seq) - 1)), evals=len(seq))


def bulk(case):
    if "seq" in case:
        return explicit(case)
    g = rng("c09", case)
    n = case["n"]
    d = g.integers(0, 256, n)
    c = g.integers(0, 4, n)
    # bytes that all pull the disparity one way, to reach its limits
    pull = [x for x in range(256) if abs(tmds.QM[x][2] - tmds.QM[x][3]) >= 4]
    mode = np.repeat(g.integers(0, 3, n//16 + 1), 16)[:n]
    d = np.where(mode == 1, np.array(pull)[g.integers(0, len(pull), n)], d)
    d = np.where(mode == 2, np.repeat(d[::7], 7)[:n] if n % 7 == 0 else np.resize(np.repeat(d[::7], 7), n), d)
    L = case["line"]
    de = np.ones(n, dtype=np.int64)
    pos = 0
    while pos < n:
        b = int(g.integers(1, 12))
        de[pos:pos + b] = 0
        pos += b + int(g.integers(1, L))
    seq = np.stack([d, c, de], axis=1).tolist()
    check(seq)
    st_ = set()
    cnt = 0
    for x, cc, e in seq:
        if e:
            st_.add((cnt, x))
            cnt = tmds.step(cnt, x)[1]
        else:
            cnt = 0
    return Info(evals=n, distinct=len(st_), sample=dict(case, first=seq[:4]))


def subs(tier):
    item = st.one_of(st.tuples(st.integers(0, 255), st.integers(0, 3), st.just(1)),
                     st.tuples(st.integers(0, 255), st.integers(0, 3), st.integers(0, 1)),
                     st.tuples(st.sampled_from([0, 255, 1, 16, 0x55, 0xaa, 0x0f, 0xf0]), st.just(0), st.just(1)))
    return [
        Sub("lines", explicit, strategy=st.fixed_dictionaries({"seq": st.lists(item, min_size=1, max_size=40)}), quick=400, thorough=8000,
            rule="generated sequences of (byte, control, data enable); non-trivial = three data words and a transition to blanking"),
        Sub("bulk", bulk, cases=lambda t: [{"n": 60000, "line": l, "rep": r} for r in range(1 if t == "quick" else 40) for l in (6, 60, 2000)],
            rule="long runs of lines, biased to bytes of high disparity and repeated bytes; distinct (disparity, byte) pairs counted"),
    ]
