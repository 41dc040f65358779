"""C05: 4:4:4 <-> 4:2:2 chroma resampling."""
import numpy as np
from hypothesis import strategies as st

from lib.pbt import Sub, Info, Violation, rng
from lib.hw import sim, stream_design, stream_run, first_diff, HarnessError, readies

PID = "C05"
F444 = ["y", "cb", "cr"]
F422 = ["y", "cb_cr"]


def down(w):
    def ctor():
        from litevideo.csc.ycbcr444to422 import YCbCr444to422
        return YCbCr444to422() if w == 8 else YCbCr444to422(w)

    def more(d, m):
        d.port("i_mark", m.datapath.first)
    return sim(("down", w), stream_design(ctor, F444, F422, more))


def up(w):
    def ctor():
        from litevideo.csc.ycbcr422to444 import YCbCr422to444
        return YCbCr422to444() if w == 8 else YCbCr422to444(w)

    def more(d, m):
        d.port("i_reset", m.reset)
    return sim(("up", w), stream_design(ctor, F422, F444, more))


def chain(w):
    def ctor():
        from migen import Module
        from litevideo.csc.ycbcr444to422 import YCbCr444to422
        from litevideo.csc.ycbcr422to444 import YCbCr422to444

        class Chain(Module):
            def __init__(self):
                self.submodules.a = YCbCr444to422(w)
                self.submodules.b = YCbCr422to444(w)
                self.comb += self.a.source.connect(self.b.sink)
                self.sink = self.a.sink
                self.source = self.b.source
        return Chain()

    def more(d, m):
        d.port("i_mark", m.a.datapath.first)
    return sim(("chain", w), stream_design(ctor, F444, F444, more))


def pair_model(line, full):
    """line: (n,3) pixels, n even.  full: upsampled again"""
    o = []
    for i in range(0, len(line) - 1, 2):
        a, b = line[i], line[i + 1]
        u = (a[1] + b[1])//2
        v = (a[2] + b[2])//2
        if full:
            o += [(a[0], u, v), (b[0], u, v)]
        else:
            o += [(a[0], u), (b[0], v)]
    return o


def lines_case(case):
    """lines of pixels separated by arbitrary idle cycles; the phase marker accompanies the first
    pixel of every line; or a single marker-less run an even number of cycles after reset"""
    w, full, marked = case["w"], case["chain"], case["marked"]
    lines = [[tuple(p) for p in l] for l in case["lines"]]
    if not marked:
        lines = [sum(lines, [])]
    items, gaps, exp, keep = [], [], [], []
    for li, l in enumerate(lines):
        for i, p in enumerate(l):
            items.append(list(p) + [int(marked and i == 0)])
            g = 0
            if i == 0:
                g = case["idle"][li % len(case["idle"])]
                if not marked:
                    g = 2*g
            gaps.append(g)
        n2 = len(l)//2*2
        e = pair_model(l, full)
        exp += e
        keep += [True]*n2 + [False]*(len(l) - n2)
    if not items:
        return Info(nontrivial=False, evals=0)
    d = chain(w) if full else down(w)
    outf = F444 if full else F422
    r = stream_run(d, F444 + ["mark"], outf, np.array(items, dtype=np.uint64), gaps, case["ready"], flags=False)
    out = r.by["sink"].log[:, 1:].tolist()
    if full:
        got = out[:len(exp)]
        expl = exp
        if len(out) < len(exp):
            raise Violation("{} of {} pixels came out".format(len(out), len(exp)))
    else:
        if len(out) != len(items):
            raise Violation("{} pixels in, {} out".format(len(items), len(out)))
        got = [o for o, k in zip(out, keep) if k]
        expl = exp
    for i, (g, e) in enumerate(zip(got, expl)):
        if tuple(g) != tuple(e):
            raise Violation("{}: sample {} is {}, expected {}".format(
                "444->422->444" if full else "444->422", i, tuple(g), tuple(e)))
    if r.by["sink"].viol:
        raise Violation("output changed while stalled at cycle {}".format(r.by["sink"].violt))
    flat = [p for l in lines for p in l]
    nt = any(l[i][1:] != l[i + 1][1:] for l in lines for i in range(0, len(l) - 1, 2))
    return Info(nontrivial=nt, evals=len(flat), labels=["stalled"] if set(case["ready"]) - {1} else ["free running"])


def chain_even(case):
    c = dict(case)
    c["chain"] = True
    c["lines"] = [l[:len(l)//2*2] for l in case["lines"]]
    return lines_case(c)


def up_case(case):
    """arbitrary gaps, back-pressure and resets"""
    w = case["w"]
    d = up(w)
    items = np.array(case["items"], dtype=np.uint64).reshape(-1, 2)
    n = len(items)
    T = (n*(max(case["gaps"] + [0]) + 1) + 40)*2*max(1, len(case["ready"])) + 40
    rst = np.zeros((T, 1), dtype=np.uint64)
    for t in case["resets"]:
        if t < T:
            rst[t] = 1
    # in the end everything must drain
    ready = list(case["ready"])
    bf = [
        dict(kind="src", dom="sys", p=["i_valid", "i_ready", "i_y", "i_cb_cr"], a=items, gaps=case["gaps"], junk=case["junk"]),
        dict(kind="sink", dom="sys", p=["o_valid", "o_ready", "o_y", "o_cb", "o_cr"], ready=ready),
        dict(kind="play", dom="sys", p=["i_reset"], a=rst),
        dict(kind="rec", dom="sys", name="r", p=["i_valid", "i_ready", "i_y", "i_cb_cr", "o_valid", "o_ready", "o_y", "o_cb", "o_cr", "i_reset"]),
    ]
    r = d.run(T, bf, clock="sys")
    acc, exp, outn, pairs = [], [], 0, 0
    prev = None
    fired = 0
    for t, iv, ir, iy, ic, ov, orr, oy, ou, ov2, rs in r.by["r"].log.tolist():
        if prev is not None and not (ov and prev == (oy, ou, ov2)):
            raise Violation("output changed while stalled at cycle {}".format(t))
        if ov:
            k = outn
            if k >= len(exp):
                raise Violation("cycle {}: pixel {} appears before its chroma pair arrived".format(t, k))
            if (oy, ou, ov2) != exp[k]:
                raise Violation("cycle {}: pixel {} is {}, expected {}".format(t, k, (oy, ou, ov2), exp[k]))
        if ov and orr:
            outn += 1
        prev = (oy, ou, ov2) if ov and not orr and not rs else None
        if iv and ir:
            acc.append((iy, ic))
            if len(acc) % 2 == 0:
                (y0, u), (y1, v) = acc[-2], acc[-1]
                exp += [(y0, u, v), (y1, u, v)]
                pairs += 1
        if rs:
            acc, exp, outn, prev = [], [], 0, None
            fired += 1
    if r.logs[0].shape[0] != n:
        raise Violation("only {} of {} samples were accepted".format(r.logs[0].shape[0], n))
    if outn != len(exp):
        raise Violation("{} of {} pixels came out".format(outn, len(exp)))
    return Info(nontrivial=pairs > 0, evals=n, labels=["with reset"] if fired else ["no reset"])


def bulk(case):
    if "lines" in case:
        return lines_case(case)
    g = rng("c05", case)
    n = case["n"]
    w = case["w"]
    px = g.integers(0, 2**w, (n, 3))
    ready = g.integers(0, 2, 61).tolist() + [1]
    mark = np.zeros((n, 1), dtype=np.int64)
    mark[0] = 1
    d = chain(w) if case["chain"] else down(w)
    r = stream_run(d, F444 + ["mark"], F444 if case["chain"] else F422, np.hstack([px, mark]), [], ready, flags=False)
    out = r.by["sink"].log[:, 1:].astype(np.int64)
    p = px.reshape(-1, 2, 3)
    u, v = (p[:, :, 1].sum(axis=1) >> 1), (p[:, :, 2].sum(axis=1) >> 1)
    if case["chain"]:
        exp = np.stack([px[:, 0], np.repeat(u, 2), np.repeat(v, 2)], axis=1)
    else:
        exp = np.stack([px[:, 0], np.stack([u, v], axis=1).reshape(-1)], axis=1)
    k = first_diff(out, exp)
    if k is not None:
        a = max(0, k//2*2 - 4)
        raise Violation("sample {}: {} instead of {}".format(k, out[k].tolist() if k < len(out) else None, exp[k].tolist() if k < len(exp) else None),
                        case={"w": w, "chain": case["chain"], "marked": True, "idle": [0], "ready": ready,
                              "lines": [px[a:a + 8].tolist()]} if False else None)
    return Info(evals=n, distinct=len(np.unique(p.reshape(-1, 6), axis=0)), sample=dict(case, pixels=px[:2].tolist()))


def subs(tier):
    ready = readies(7)

    def strat(even):
        def f(w):
            v = st.one_of(st.integers(0, 2**w - 1), st.sampled_from([0, 1, 2**w - 1, 2**w - 2]))
            px = st.tuples(v, v, v)
            ln = st.lists(px, min_size=1, max_size=12)
            return st.fixed_dictionaries({
                "w": st.just(w), "chain": st.just(False), "marked": st.booleans(),
                "lines": st.lists(ln, min_size=1, max_size=4),
                "idle": st.lists(st.integers(0, 5), min_size=1, max_size=4), "ready": ready})
        return st.sampled_from([4, 8, 10]).flatmap(f)

    def ustrat(w):
        v = st.integers(0, 2**w - 1)
        return st.fixed_dictionaries({
            "w": st.just(w), "items": st.lists(st.tuples(v, v), min_size=1, max_size=30),
            "gaps": st.lists(st.integers(0, 4), max_size=6), "ready": ready,
            "junk": st.lists(v, max_size=3),
            "resets": st.one_of(st.just([]), st.lists(st.integers(0, 60), max_size=3))})
    return [
        Sub("down", lines_case, strategy=strat(False), quick=400, thorough=10000,
            rule="lines of 1..12 generated pixels, marked or free-running, idle cycles between lines, output back-pressure; non-trivial = some pixel pair has two different chroma values"),
        Sub("chain", chain_even, strategy=strat(True), quick=300, thorough=8000,
            rule="even-length lines through 444->422->444; non-trivial as above"),
        Sub("up", up_case, strategy=st.sampled_from([4, 8, 10]).flatmap(ustrat), quick=600, thorough=12000,
            rule="generated 4:2:2 samples with gaps, junk on idle inputs, back-pressure and mid-stream resets; non-trivial = at least one complete pair"),
        Sub("bulk", bulk, cases=lambda t: [{"w": w, "chain": c, "n": 200000 if t == "quick" else 4000000} for w in (8, 10) for c in (False, True)],
            rule="long uniform pixel runs under pseudo-random back-pressure; distinct pixel pairs counted"),
    ]
