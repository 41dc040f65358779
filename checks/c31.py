"""C31: HDMI framing."""
import numpy as np
from hypothesis import strategies as st

from lib.pbt import Sub, Info, Violation, rng
from lib.hw import sim
from lib.csr import WithBank, Play
from lib import hdmi, tmds
from vsim.sim import Design, clocks

PID = "C31"
FIELDS = ("raw", "d", "c", "de")
FLAGS = ("encoding_terc4", "encrypting_data", "encrypting_video")
MAXLAT = 12
TERC4 = np.full(1024, -1)
TERC4[list(tmds.TERC4)] = np.arange(16)
SETTLE = 60


def channel(x, i):
    """the decoder of a channel, by its name or else by its class"""
    n = "data{}_dect4".format(i)
    if hasattr(x, n):
        return getattr(x, n)
    from litevideo.input.decoding import DecodeTERC4Channel
    return [m for _, m in x._submodules if isinstance(m, DecodeTERC4Channel)][i]


def dut():
    def make():
        from migen import ClockDomainsRenamer
        from litevideo.input.decoding import DecodeTERC4
        x = DecodeTERC4()
        csrs = x.get_csrs()
        m = WithBank(ClockDomainsRenamer("pix")(x), csrs=csrs)
        d = m.ports(Design(m, ["sys", "pix"]))
        d.port("valid", x.valid_i)
        for i in range(3):
            for f in FIELDS:
                d.port("{}{}".format(f, i), getattr(getattr(x, "data_in{}".format(i)), f))
        d.port("de", x.de_o)
        for n in FLAGS:
            d.port(n, getattr(x, n))
        for i in range(3):
            d.port("t{}".format(i), channel(x, i).decval.d)
        return d
    return sim("terc4", make)


INS = ["valid"] + ["{}{}".format(f, i) for i in range(3) for f in FIELDS]


def stimulus(case):
    g = rng("c31", case["seed"])
    s = hdmi.Stream()
    s.control(0, 0, SETTLE)
    nv = ni = 0
    isl, cut, inv = [], [], []
    for p in case["periods"]:
        hs, vs = p[1] & 1, p[1] >> 1
        if p[0] == "c":
            # controls that are no preamble, the first of them perhaps not valid
            if len(p) > 4 and p[4]:
                inv.append((len(s), p[4]))
                s.control(hs, vs, p[4])
                s.control(hs, vs, 4)
            for i in range(p[2]):
                x = [0b0000, 0b1000, 0b0100, 0b0010][int(g.integers(0, 4))] if p[3] else 0
                s.control(hs, vs, 1, x)
        elif p[0] == "v":
            s.control(hs, vs, 4).control(hs, vs, 8, hdmi.VIDEO_PREAMBLE)
            px = g.integers(0, 256, (p[2], 3))
            if p[3]:
                px = np.array(hdmi.SPECIAL)[g.integers(0, len(hdmi.SPECIAL), (p[2], 3))]
            if p[3] == 2:
                px[0] = (0xab, 0x55, 0xab)
            s.video(px, hs, vs, True)
            s.control(hs, vs, 1)
            nv += 1
        elif p[0] == "i":
            s.control(hs, vs, 4).control(hs, vs, 8, hdmi.DATA_PREAMBLE)
            isl.append((len(s), 32*p[2] + 4))
            s.island(hs, vs, p[2], g)
            s.control(hs, vs, 1)
            ni += 1
        elif p[0] == "t":
            # an island that breaks off
            s.control(hs, vs, 4).control(hs, vs, 8, hdmi.DATA_PREAMBLE)
            k = len(s)
            s.island(hs, vs, 1, g)
            del s.rows[k + p[2]:]
            cut.append((k, p[2]))
            s.control(hs, vs, 2)
        elif p[0] == "p":
            # a preamble of nothing
            s.control(hs, vs, p[2], hdmi.VIDEO_PREAMBLE if p[3] else hdmi.DATA_PREAMBLE)
            s.control(hs, vs, 1)
    s.control(0, 0, 4)
    a = s.array()
    # island words, those between the guard bands, pixels
    f = np.zeros((len(a), 3), dtype=np.int64)
    for i, n in isl:
        f[i:i + n, 0] = 1
        f[i + 2:i + n - 2, 1] = 1
    for i, n in cut:
        f[i:i + n, 0] = 1
        f[i + 2:i + n, 1] = 1
    f[:, 2] = a[:, 3]
    ok = np.ones(len(a), dtype=np.uint64)
    for i, n in inv:
        ok[i:i + n] = 0
    return a, f, nv, ni, ok


_LUT = None


def lut():
    global _LUT
    if _LUT is None:
        _LUT = np.array([(w, d, 0 if c is None else c, de) for w in range(1024) for de, c, d in [tmds.decode(w)]], dtype=np.uint64)
    return _LUT


def run(a, ok, dvi, ph):
    s = dut()
    n = len(a) + MAXLAT + 2
    pl = Play(s.design.csr)
    pl.wr("dvimode", dvi)
    w = a[:, :3].astype(int)
    ins = np.concatenate([ok[:, None]] + [lut()[w[:, i]] for i in range(3)], axis=1)
    ins = np.concatenate([ins, np.repeat(ins[-1:], MAXLAT + 2, axis=0)])
    ts, doms = clocks(n*2, [("sys", 3, 0), ("pix", 2, ph)])
    mask = np.array([s.mask(x) for x in doms], dtype=np.uint32)
    r = s.run(len(mask), pl.bfms("sys") + [
        dict(kind="play", dom="pix", p=INS, a=ins),
        dict(kind="rec", dom="pix", name="o", p=["de"] + list(FLAGS) + ["t0", "t1", "t2"])], mask=mask)
    return r.by["o"].log[:, 1:].astype(int)


def lats(o, e):
    """latencies that explain the output, and the first error for the best one"""
    n = len(e)
    ok = []
    best = (-1, 0)
    for l in range(MAXLAT):
        x = o[l:l + n]
        bad = np.flatnonzero(x[SETTLE - 10:] != e[SETTLE - 10:len(x)])
        if not len(bad):
            ok.append(l)
        elif bad[0] > best[0]:
            best = (int(bad[0]), l)
    return ok, best


def where(a, t, e):
    k = t
    while k > 0 and e[k - 1] == e[t]:
        k -= 1
    return "word {} of a period of {}".format(t - k, "pixels" if e[t] else "no pixels")


def fn(case):
    a, f, nv, ni, ok = stimulus(case)
    e = a[:, 3]
    pde = np.array([tmds.decode(int(w))[0] for w in a[:, 0]])
    oh = run(a, ok, 0, case["ph"])
    od = run(a, ok, 1, case["ph"])
    lh, bh = lats(oh[:, 0], e)
    ld, bd = lats(od[:, 0], pde)
    if not lh:
        t = bh[0] + SETTLE - 10
        raise Violation("HDMI mode: data enable is {} at {} (clock {}, latency {})".format(oh[t + bh[1], 0], where(a, t, e), t, bh[1]))
    if not ld:
        t = bd[0] + SETTLE - 10
        raise Violation("DVI mode: data enable is {} for channel 0 word {:#x} (clock {}, latency {})".format(od[t + bd[1], 0], int(a[t, 0]), t, bd[1]))
    if nv and not set(lh) & set(ld):
        raise Violation("data enable is {} clocks late in HDMI mode but {} in DVI mode: one of them is not aligned with the pixels".format(lh, ld))
    # the flags for a decryption engine: same words in either mode, in step with the pixels
    for o, mode in ((oh, "HDMI"), (od, "DVI")):
        for k, n in enumerate(FLAGS):
            lf, bf = lats(o[:, 1 + k], f[:, k])
            if not lf or (nv and not set(lf) & set(lh)):
                t = bf[0] + SETTLE - 10
                raise Violation("{} mode: {} {}".format(mode, n, "is {} at clock {}".format(o[t + bf[1], 1 + k], t) if not lf else "is not aligned with the pixels"))
    # nibbles of the data islands
    b = np.flatnonzero(f[:, 1])
    if len(b):
        best = None
        for l in range(MAXLAT):
            bad = np.argwhere(oh[b + l, 4:7] != TERC4[a[b, :3]])
            if not len(bad):
                break
            if best is None or bad[0][0] > best[0]:
                best = (int(bad[0][0]), int(bad[0][1]), l)
        else:
            k, ch, l = best
            raise Violation("data island word {} of channel {} ({:#05x}) is decoded as {:#x}, it stands for {:#x}".format(
                k, ch, int(a[b[k], ch]), int(oh[b[k] + l, 4 + ch]), int(TERC4[a[b[k], ch]])))
    return Info(nontrivial=nv > 0 and ni > 0, evals=2*len(a), labels=["videos{}".format(min(nv, 5)), "islands{}".format(min(ni, 5))])


@st.composite
def period(draw):
    k = draw(st.sampled_from("vvviicpt"))
    sy = draw(st.integers(0, 3))
    if k == "v":
        return [k, sy, draw(st.integers(1, 30)), draw(st.integers(0, 2))]
    if k == "t":
        return [k, sy, draw(st.integers(3, 34))]
    if k == "i":
        return [k, sy, draw(st.integers(1, 3))]
    return [k, sy, draw(st.integers(1, 12)), draw(st.integers(0, 1)), draw(st.sampled_from([0, 0, 1, 2, 5]))]


cases = st.fixed_dictionaries({"seed": st.integers(0, 2**20), "ph": st.integers(0, 1), "periods": st.lists(period(), min_size=1, max_size=14)})


def long(case):
    """hundreds of periods, many breaks of validity"""
    g = rng("c31l", case)
    per = []
    for _ in range(case["n"]):
        k = "vvviicccctp"[int(g.integers(0, 11))]
        sy = int(g.integers(0, 4))
        if k == "v":
            per.append([k, sy, int(g.integers(1, 60)), int(g.integers(0, 3))])
        elif k == "t":
            per.append([k, sy, int(g.integers(3, 35))])
        elif k == "i":
            per.append([k, sy, int(g.integers(1, 4))])
        else:
            per.append([k, sy, int(g.integers(1, 13)), int(g.integers(0, 2)), int(g.integers(0, 4))])
    x = fn({"seed": case["s"], "ph": case["s"] % 2, "periods": per})
    return Info(evals=x.evals, labels=x.labels, sample=case)


def subs(tier):
    return [Sub("framing", fn, strategy=cases, quick=1000, thorough=20000,
                rule="generated sequences of control, preamble, island and video periods, each in both modes, the channels not valid for some control words; non-trivial = at least one video period and one island"),
            Sub("long", long, cases=lambda t: [{"s": i, "n": 600} for i in range(8 if t == "quick" else 200)],
                rule="600 periods in a row with about 160 breaks of validity")]
