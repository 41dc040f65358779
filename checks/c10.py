"""C10: TMDS decoding."""
import numpy as np
from hypothesis import strategies as st

from lib import tmds
from lib.pbt import Sub, Info, Violation, rng
from lib.hw import sim
from vsim.sim import Design

PID = "C10"
MAXLAT = 8


def dut():
    def make():
        from litevideo.input.decoding import Decoding
        m = Decoding()
        d = Design(m, ["pix"])
        d.port("w", m.input)
        d.port("vi", m.valid_i)
        d.port("vo", m.valid_o)
        for n in ("raw", "d", "c", "de"):
            d.port("o_" + n, getattr(m.output, n))
        return d
    return sim("dec", make)


def run(words, valid):
    n = len(words)
    a = np.stack([np.append(words, 0), np.append(valid, 0)], axis=1)
    r = dut().run(n + MAXLAT, [dict(kind="play", dom="pix", p=["w", "vi"], a=a),
                               dict(kind="rec", dom="pix", name="o", p=["vo", "o_raw", "o_de", "o_c", "o_d"])], clock="pix")
    return r.by["o"].log[:, 1:].astype(np.int64)


_lat = {}


def latency():
    if not _lat:
        w = np.array([(k*397 + 11) % 1024 for k in range(60)])
        o = run(w, np.zeros(60, dtype=np.int64))[:, 1].tolist()
        m = [l for l in range(1, MAXLAT) if o[l:l + 60] == w.tolist()]
        _lat["l"] = m[0] if m else 1
    return _lat["l"]


DEC = [tmds.decode(w) for w in range(1024)]


def check(words, valid):
    words = np.asarray(words)
    valid = np.asarray(valid)
    L = latency()
    o = run(words, valid)[L:L + len(words)].tolist()
    c = None
    for k, (w, v) in enumerate(zip(words.tolist(), valid.tolist())):
        de, cc, d = DEC[w]
        vo, raw, ode, oc, od = o[k]
        what = None
        if vo != v:
            what = "valid {} comes out as {}".format(v, vo)
        elif raw != w:
            what = "raw word {:010b} comes out as {:010b}".format(w, raw)
        elif ode != de:
            what = "word {:010b} gives data enable {}".format(w, ode)
        elif de and od != d:
            what = "word {:010b} decodes to {:#04x}, expected {:#04x}".format(w, od, d)
        elif not de and oc != cc:
            what = "control token {:010b} decodes to {}, expected {}".format(w, oc, cc)
        elif de and c is not None and oc != c:
            what = "control bits change from {} to {} during data".format(c, oc)
        if what:
            lo = max(0, k - 6)
            raise Violation(what, case={"w": words[lo:k + 1].tolist(), "v": valid[lo:k + 1].tolist()} if len(words) > 60 else None)
        if not de:
            c = cc


def explicit(case):
    w = case["w"]
    v = [case["v"][i % len(case["v"])] for i in range(len(w))]
    check(w, v)
    return Info(nontrivial=any(x in tmds.CTRL for x in w) and any(x not in tmds.CTRL for x in w), evals=len(w))


def bulk(case):
    if "w" in case:
        return explicit(case)
    g = rng("c10", case)
    w = np.concatenate([g.permutation(1024) for _ in range(case["n"])])
    ctl = g.random(len(w)) < case["ctl"]
    w = np.where(ctl, np.array(tmds.CTRL)[g.integers(0, 4, len(w))], w)
    check(w, g.integers(0, 2, len(w)))
    return Info(evals=len(w), distinct=len(set(zip(w[:-1].tolist(), w[1:].tolist()))), sample=dict(case, first=w[:5].tolist()))


def loop():
    """encoder into decoder"""
    def make():
        from migen import Module, ClockDomainsRenamer
        from litevideo.input.decoding import Decoding
        from litevideo.output.hdmi.encoder import Encoder

        class Loop(Module):
            def __init__(self):
                self.submodules.e = ClockDomainsRenamer("pix")(Encoder())
                self.submodules.x = Decoding()
                self.comb += self.x.input.eq(self.e.out)
        m = Loop()
        d = Design(m, ["pix"])
        for n in ("d", "c", "de"):
            d.port(n, getattr(m.e, n))
            d.port("o_" + n, getattr(m.x.output, n))
        return d
    return sim("loop", make)


def roundtrip(case):
    g = rng("c10l", case)
    n = case["n"]
    seq = np.stack([g.integers(0, 256, n), g.integers(0, 4, n), (np.arange(n) % case["line"] > 3).astype(np.int64)], axis=1)
    pad = 24
    r = loop().run(n + pad, [dict(kind="play", dom="pix", p=["d", "c", "de"], a=np.vstack([seq, [[0, 0, 0]]])),
                             dict(kind="rec", dom="pix", name="o", p=["o_d", "o_c", "o_de"])], clock="pix")
    o = r.by["o"].log[:, 1:].astype(np.int64)
    de = seq[:, 2]
    # the data enable pattern gives the latency
    ls = [l for l in range(1, pad) if (o[l:l + n, 2] == de).all()]
    if not ls:
        raise Violation("data enable does not come through the encoder and the decoder", case=case)
    # a periodic data enable fits several latencies; one of them must fit the data
    best = None
    for l in ls:
        x = o[l:l + n]
        bad = np.flatnonzero(((x[:, 0] != seq[:, 0]) & (de == 1)) | ((x[:, 1] != seq[:, 1]) & (de == 0)))
        if not len(bad):
            return Info(evals=n, distinct=len(np.unique(seq, axis=0)), sample=case)
        best = best or (l, int(bad[0]))
    l, k = best
    raise Violation("sent (data, control, de) {} received {}".format(seq[k].tolist(), o[l + k].tolist()))


def subs(tier):
    word = st.one_of(st.integers(0, 1023), st.sampled_from(tmds.CTRL), st.integers(0, 255).map(lambda d: tmds.valid_words(d)[0]))
    return [
        Sub("orders", explicit, strategy=st.fixed_dictionaries({
            "w": st.lists(word, min_size=1, max_size=30), "v": st.lists(st.integers(0, 1), min_size=1, max_size=5)}), quick=300, thorough=5000,
            rule="generated word sequences with the valid flag toggling; non-trivial = both a token and a data word"),
        Sub("all_words", bulk, cases=lambda t: [{"n": 30, "ctl": p, "rep": r} for r in range(1 if t == "quick" else 30) for p in (0.0, 0.1, 0.5)],
            rule="all 1024 words in random orders; distinct consecutive pairs counted"),
        Sub("round_trip", roundtrip, cases=lambda t: [{"n": 20000, "line": l, "rep": r} for r in range(1 if t == "quick" else 20) for l in (9, 50, 700)],
            rule="random lines through the real encoder and decoder; distinct inputs counted"),
    ]
