"""C25: frame extraction packs the active pixels into words."""
import numpy as np
from hypothesis import strategies as st

from lib.pbt import Sub, Info, Violation, rng
from lib.hw import sim, readies
from lib.csr import WithBank, Play
from vsim.sim import Design, clocks
from checks import c01

PID = "C25"
BITS = {"rgb": 32, "ycbcr422": 16}
BLANK = 20       # shortest blanking: pixels of a line have left the conversion before the next line starts


def dut(mode, width, depth):
    def make():
        from litevideo.input.analysis import FrameExtraction
        x = FrameExtraction(width, depth, mode)
        m = WithBank(x)
        d = m.ports(Design(m, ["sys", "pix"]))
        for n in ("valid_i", "vsync", "de", "r", "g", "b"):
            d.port(n, getattr(x, n))
        d.port("valid", x.frame.valid)
        d.port("ready", x.frame.ready)
        d.port("sof", x.frame.sof)
        d.out("pixels", x.frame.pixels)
        return d
    return sim(("fext", mode, width, depth), make)


def stimulus(case):
    """rows (valid, vsync, de, r, g, b) and, per frame, (lines of pixels, valid flags of the pixels)"""
    g = rng("c25", case["seed"])
    rows, frames = [], []
    for lead, vs, back, widths, hb, drop in case["frames"]:
        r = [(1, 0, 0)]*lead + [(1, 1, 0)]*vs + [(1, 0, 0)]*back
        r = np.array(r, dtype=np.uint64).reshape(-1, 3)
        rows.append(np.hstack([r, g.integers(0, 256, (len(r), 3), dtype=np.uint64)]))
        lines = []
        body = []
        for w in widths:
            px = g.integers(0, 256, (w, 3), dtype=np.uint64)
            if g.random() < 0.3:
                px = (px >> np.uint64(7))*np.uint64(255)
            lines.append(px)
            a = np.zeros((w + hb, 6), dtype=np.uint64)
            a[:, 0] = 1
            a[:w, 2] = 1
            a[:w, 3:] = px
            a[w:, 3:] = g.integers(0, 256, (hb, 3))
            body.append(a)
        body = np.concatenate(body) if body else np.zeros((0, 6), dtype=np.uint64)
        if drop is not None:
            body[drop[0]:drop[0] + drop[1], 0] = 0
        rows.append(body[:len(body) - hb] if case.get("tight") and len(widths) else body)
        frames.append((lines, body[body[:, 2] == 1, 0].astype(bool)))
    rows.append(np.array([(1, 0, 0, 0, 0, 0)]*40, dtype=np.uint64))
    return np.concatenate(rows), frames


def encode(mode, lines):
    """encoded pixels of a frame as python integers"""
    out = []
    for l in lines:
        if mode == "rgb":
            out += [int(r) << 16 | int(g) << 8 | int(b) for r, g, b in l]
        else:
            y = c01.model(l, 8, 8).astype(np.int64) if len(l) else []
            for i in range(0, len(l), 2):
                u = (y[i][1] + y[i + 1][1])//2
                v = (y[i][2] + y[i + 1][2])//2
                out += [int(y[i][0]) | int(u) << 8, int(y[i + 1][0]) | int(v) << 8]
    return out


def pack(mode, width, px):
    b = BITS[mode]
    k = width//b
    out = []
    for i in range(0, len(px)//k*k, k):
        w = 0
        for p in px[i:i + k]:
            w = w << b | p           # the first pixel is the most significant
        out.append(w)
    return out


def expected(case, frames):
    """[(words, dirty)] per frame"""
    out = []
    for l, ok in frames:
        px = encode(case["mode"], l)
        out.append((pack(case["mode"], case["width"], [p for p, v in zip(px, ok) if v]), not ok.all()))
    return out


def simulate(case, rows, ready, pl, tail=80):
    s = dut(case["mode"], case["width"], case["depth"])
    ps, pv = case["ps"], case["pv"]
    T = max(len(rows)*pv, pl.now()*ps) + tail*ps
    ts, doms = clocks(T, [("sys", ps, 0), ("pix", pv, case["ph"] % pv)])
    mask = np.array([s.mask(x) for x in doms], dtype=np.uint32)
    names = s["pixels"]
    r = s.run(len(mask), pl.bfms("sys") + [
        dict(kind="play", dom="pix", p=["valid_i", "vsync", "de", "r", "g", "b"], a=rows),
        dict(kind="sink", dom="sys", name="o", p=["valid", "ready", "sof"] + names, ready=ready)], mask=mask)
    if r.by["o"].viol:
        raise Violation("an offered word changes or disappears before it is taken (step {})".format(r.by["o"].violt))
    log = r.by["o"].log
    out = []
    for row in log.tolist():
        w = 0
        for i, x in enumerate(row[2:]):
            w |= int(x) << (64*i)
        out.append((int(row[1]), w))
    return r, out


def groups(out):
    """splits at the start-of-frame marks; the first group has no mark"""
    g = [[]]
    for sof, w in out:
        if sof:
            g.append([])
        g[-1].append(w)
    return g


def compare(case, f, got, e, lumaonly=False):
    """the chroma of a line which was disturbed by invalid input is not judged"""
    m = 255 if lumaonly and case["mode"] != "rgb" else -1
    b = BITS[case["mode"]]
    k = case["width"]//b
    for i in range(min(len(got), len(e))):
        if got[i] != e[i]:
            for j in range(k):
                sh = b*(k - 1 - j)
                x, y = got[i] >> sh & (2**b - 1), e[i] >> sh & (2**b - 1)
                if (x ^ y) & m:
                    raise Violation("frame {}, word {}, pixel {} of it: {:#x}, expected {:#x}".format(f, i, j, x, y))
    if len(got) != len(e):
        raise Violation("frame {}: {} words instead of {}".format(f, len(got), len(e)))


def exact(case):
    rows, frames = stimulus(case)
    exp = expected(case, frames)
    s = dut(case["mode"], case["width"], case["depth"])
    pl = Play(s.design.csr)
    pl.idle(len(rows)*case["pv"]//case["ps"] + 30)
    pl.rd("overflow").idle(3)
    total = sum(len(e) for e, d in exp)
    if total > case["depth"] - 4:
        # keep up with the pixels
        ready = [1]
        if case["ps"]*1.0 > case["pv"]*(case["width"]//BITS[case["mode"]])*0.9:
            return Info(nontrivial=False, evals=0, labels=["too fast"])
    else:
        ready = case["ready"]
    r, out = simulate(case, rows, ready, pl, tail=60 + total*len(ready)*2)
    ov = pl.results(r)[0][2]
    if ov:
        raise Violation("an overflow is reported although nothing can have overflowed")
    g = groups(out)
    # frames that have no word carry their mark over to the next
    pre = g[0]
    if pre:
        raise Violation("{} words come before the first start of frame".format(len(pre)))
    g = g[1:]
    want = [(f, e, d) for f, (e, d) in enumerate(exp) if e]
    di = [f for f, e, d in want if d]
    for k, (f, e, d) in enumerate(want):
        if k >= len(g):
            raise Violation("frame {} is missing (its start was not marked)".format(f))
        compare(case, f, g[k], e, d)
    if len(g) != len(want):
        raise Violation("{} starts of frames are marked, {} frames were sent".format(len(g), len(want)))
    return Info(nontrivial=len(want) >= 2 and total >= 4, evals=total,
                labels=["{}{}".format(case["mode"], case["width"]), "disturbed" if di else "clean"])


def overflow(case):
    """stalled consumer, in two episodes: lost words are reported, and only then"""
    s = dut(case["mode"], case["width"], case["depth"])
    ps, pv = case["ps"], case["pv"]
    pl = Play(s.design.csr)
    parts, exp, ready = [], [], []
    settle = 30*(pv//ps + 1)
    for ep, (x, y) in enumerate(case["stalls"]):
        rows, frames = stimulus(dict(case, seed=case["seed"] + ep))
        exp.append([(1 if i == 0 else 0, w) for e, d in expected(case, frames) for i, w in enumerate(e)])
        n = len(rows)*pv//ps
        x = n*x//100
        y = min(n, x + n*y//100)
        t0 = pl.now()
        pl.idle(n + settle + 40)
        pl.rd("overflow").idle(2)
        pl.wr("overflow", 1)
        for k in range(4):
            pl.rd("overflow").idle([0, 1, 3, settle][k])
        pl.rd("overflow").idle(40 + 4*len(exp[-1]))
        ready += [1]*x + [0]*(y - x)
        ready += [1]*(pl.now() - len(ready))
        parts.append(rows)
        k = (pl.now()*ps)//pv + 2 - sum(len(p) for p in parts)
        parts.append(np.zeros((max(0, k), 6), dtype=np.uint64) + np.array([1, 0, 0, 0, 0, 0], dtype=np.uint64))
    rows = np.concatenate(parts)
    sent = [(ep, e) for ep, x in enumerate(exp) for e in x]
    r, out = simulate(case, rows, ready + [1]*(40*len(sent) + 2000), pl, tail=len(sent)*2 + 100)
    res = [x[2] for x in pl.results(r)]
    # the words that came are a part of those sent, in order
    k = 0
    miss = [0]*len(exp)
    for i, w in enumerate(out):
        while k < len(sent) and sent[k][1] != w:
            miss[sent[k][0]] += 1
            k += 1
        if k == len(sent):
            raise Violation("word {} read ({}, {:#x}) was not sent, or out of order".format(i, *w))
        k += 1
    while k < len(sent):
        miss[sent[k][0]] += 1
        k += 1
    for ep in range(len(exp)):
        if bool(miss[ep]) != bool(res[6*ep]):
            raise Violation("episode {}: {} of {} words are lost, but overflow reads {}".format(ep, miss[ep], len(exp[ep]), res[6*ep]))
        if any(res[6*ep + 1:6*ep + 6]):
            raise Violation("overflow still reads 1 after it was cleared")
    return Info(nontrivial=any(miss), evals=len(sent), labels=["lost" if m else "kept" for m in miss])


@st.composite
def frame(draw, mode, drops):
    big = draw(st.integers(0, 4)) == 0
    if mode == "rgb":
        w = draw(st.lists(st.integers(1, 30 if big else 7), min_size=draw(st.sampled_from([0, 1, 2, 2])), max_size=6))
        hb = draw(st.integers(1, 30))
        lead = draw(st.integers(1, 20))
    else:
        w = [2*x for x in draw(st.lists(st.integers(1, 16 if big else 5), min_size=draw(st.sampled_from([0, 1, 2, 2])), max_size=6))]
        hb = draw(st.integers(BLANK, BLANK + 9))
        lead = draw(st.integers(BLANK, BLANK + 9))
    drop = draw(st.tuples(st.integers(0, 120), st.one_of(st.integers(1, 12), st.integers(1, 200))).map(list)) if drops else None
    return [lead, draw(st.integers(1, 5)), draw(st.integers(1, 12)), w, hb, drop]


def base(draw):
    mode = draw(st.sampled_from(["rgb", "ycbcr422"]))
    return {"mode": mode, "width": draw(st.sampled_from([32, 64, 128, 256] if mode == "rgb" else [16, 32, 64, 128])),
            "ps": draw(st.integers(1, 5)), "pv": draw(st.integers(1, 5)), "ph": draw(st.integers(0, 4)), "seed": draw(st.integers(0, 2**16))}


@st.composite
def exacts(draw):
    c = base(draw)
    n = draw(st.integers(2, 6))
    dirty = draw(st.integers(0, n*3))
    fr = [draw(frame(c["mode"], i == dirty or dirty == n + 1)) for i in range(n)]
    if draw(st.integers(0, 3)) == 0:
        # no front porch: the vertical sync comes right behind the last pixel (or when it has left the conversion)
        c["tight"] = True
        for f in fr:
            f[0] = draw(st.integers(0, 3)) if c["mode"] == "rgb" else BLANK
    c.update(frames=fr, depth=draw(st.sampled_from([16, 512])),
             ready=draw(st.one_of(st.just([1]), readies(5))))
    return c


@st.composite
def overflows(draw):
    c = base(draw)
    fr = [draw(frame(c["mode"], False)) for i in range(draw(st.integers(1, 3)))]
    for f in fr:
        k = draw(st.integers(4, 14))
        f[3] = [8]*k
    c.update(frames=fr, depth=16, stalls=[[draw(st.integers(0, 60)), draw(st.integers(0, 100))] for i in range(2)])
    c["ps"] = 1
    return c


def subs(tier):
    return [
        Sub("frames", exact, strategy=exacts(), quick=600, thorough=6000,
            rule="generated frames, line lengths, blanking, validity drops, widths, modes, clock ratios, consumer stalls; non-trivial = at least two frames and four words"),
        Sub("overflow", overflow, strategy=overflows(), quick=250, thorough=2500,
            rule="a generated consumer stall around the FIFO's capacity; non-trivial = words were lost"),
    ]
