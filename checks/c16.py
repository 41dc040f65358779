"""C16: the built-in test patterns."""
import numpy as np
from hypothesis import strategies as st

from lib.pbt import Sub, Info, Violation
from lib.hw import sim, readies
from vsim.sim import Design

PID = "C16"
BARS = [(255, 255, 255), (255, 255, 0), (0, 255, 255), (0, 255, 0),
        (255, 0, 255), (255, 0, 0), (0, 0, 255), (0, 0, 0)]
CLS = {"bars": "ColorBarsPattern", "lines": "VerticalLinesPattern", "dots": "DotsPattern"}


def dut(kind):
    def make():
        import litevideo.output.pattern as p
        m = getattr(p, CLS[kind])()
        d = Design(m)
        d.port("en", m.sink.valid)
        d.port("hres", m.sink.hres)
        for n in ("valid", "ready", "r", "g", "b"):
            d.port(n, getattr(m.source, n))
        return d
    return sim(("pattern", kind), make)


def model(kind, hres, n):
    k = np.arange(n)
    if kind == "bars":
        return np.array(BARS, dtype=np.uint64)[(k//(hres//8)) % 8]
    if kind == "lines":
        w = k & 1
    else:
        w = (k % hres + k//hres) & 1
    return np.repeat((w*255)[:, None], 3, axis=1).astype(np.uint64)


def check(case):
    kind, hres = case["kind"], case["hres"]
    s = dut(kind)
    lines = case["lines"]
    ready = case["ready"]
    n = hres*lines + case["extra"]
    steps = case["start"] + 8 + 2*len(ready) + n*len(ready)*(2 if 2 in ready else 1)//sum(1 for x in ready if x)
    r = s.run(steps, [
        dict(kind="play", dom="sys", p=["en", "hres"], a=np.array([(0, hres)]*case["start"] + [(1, hres)], dtype=np.uint64)),
        dict(kind="sink", dom="sys", name="o", p=["valid", "ready", "r", "g", "b"], ready=ready),
        dict(kind="rec", dom="sys", name="w", p=["valid", "ready", "r", "g", "b"])], clock="sys")
    w = r.by["w"].log[:, 1:]
    if w[:case["start"], 0].any():
        raise Violation("pixels are offered before the parameters are valid")
    log = r.by["o"].log[:, 1:]
    if len(log) < n:
        raise Violation("only {} pixels in the time of {}".format(len(log), n))
    # an offered pixel stays until it is taken
    held = (w[:-1, 0] == 1) & (w[:-1, 1] == 0)
    bad = np.flatnonzero(held & ((w[1:, 2:] != w[:-1, 2:]).any(axis=1) | (w[1:, 0] == 0)))
    if len(bad):
        raise Violation("the pixel offered at clock {} changes before it is taken: {} becomes {}".format(
            int(bad[0]), w[bad[0], 2:].tolist(), w[bad[0] + 1, 2:].tolist()))
    e = model(kind, hres, len(log))
    alts = [e] if kind == "bars" else [e, 255 - e]
    if not any((log == a).all() for a in alts):
        b = min((int(np.flatnonzero((log != a).any(axis=1))[0]) for a in alts))
        a = alts[0] if kind == "bars" or (log[0] == alts[0][0]).all() else alts[1]
        b = int(np.flatnonzero((log != a).any(axis=1))[0])
        raise Violation("{}, width {}: line {} pixel {} is {}, expected {}".format(
            kind, hres, b//hres, b % hres, log[b].tolist(), a[b].tolist()))
    return Info(nontrivial=lines >= 2 or kind != "dots" and len(log) >= hres, evals=len(log), labels=[kind, "stalls" if set(ready) - {1} else "free"])


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(["bars", "bars", "lines", "dots"]))
    big = draw(st.integers(0, 5)) == 0
    hi = 4095 if big else 80
    if kind == "bars":
        hres = draw(st.one_of(st.integers(1, hi//8).map(lambda x: x*8), st.integers(8, hi)))
    else:
        hres = 2*draw(st.integers(1, hi//2))
    return {"kind": kind, "hres": hres, "lines": draw(st.integers(1, 3 if big else 12)), "extra": draw(st.integers(1, 9)),
            "start": draw(st.integers(0, 5)),
            "ready": draw(st.one_of(st.just([1]), readies(9),
                                    st.lists(st.integers(0, 1), max_size=9).map(lambda l: [1] + l)))}


def subs(tier):
    return [Sub("pictures", check, strategy=cases(), quick=600, thorough=20000,
                rule="generated pattern, width, lines, start and consumer stalls; non-trivial = at least a whole line (two for the dots)")]
