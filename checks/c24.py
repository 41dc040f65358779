"""C24: resolution detection."""
import numpy as np
from hypothesis import strategies as st

from lib.pbt import Sub, Info, Violation, rng
from lib.hw import sim
from lib.csr import WithBank, Play
from vsim.sim import Design, clocks

PID = "C24"


def dut(nb=11):
    def make():
        from litevideo.input.analysis import ResolutionDetection
        m = WithBank(ResolutionDetection() if nb == 11 else ResolutionDetection(nb))
        d = m.ports(Design(m, ["sys", "pix"]))
        for n in ("valid_i", "vsync", "de"):
            d.port(n, getattr(m.dut, n))
        return d
    return sim(("resdet", nb), make)


def stimulus(case):
    """rows (valid, vsync, de)"""
    out = []
    v = 1
    for f in case["frames"]:
        if f[0] == "off":
            out += [(0, 0, 0)]*f[1]
            continue
        _, widths, hb, vfp, vs, vbp, drop = f
        b = []
        for w in widths:
            b += [(1, 0, 1)]*w + [(1, 0, 0)]*hb
        b += [(1, 0, 0)]*vfp + [(1, 1, 0)]*vs + [(1, 0, 0)]*vbp
        if drop is not None and drop[0] < len(b):
            b[drop[0]:drop[0] + drop[1]] = [(0,) + x[1:] for x in b[drop[0]:drop[0] + drop[1]]]
        out += b
    return np.array(out, dtype=np.uint64)


def model(a):
    """per clock: expected width and height from the clock on, -1: not determined"""
    n = len(a)
    e = np.zeros((n, 2), dtype=np.int64)
    h = v = 0
    line = None          # active pixels so far (None: was not watched from its start)
    lines = None         # lines of this frame (None: not watched from its start)
    pde = pvs = 0
    e[0] = (-1, -1)
    for t in range(n):
        val, vs, de = (int(x) for x in a[t])
        if not val:
            h = v = 0
            line = lines = None
            e[t] = (0, 0)
        else:
            if de and not pde:
                line = 0
            if de and line is not None:
                line += 1
            if pde and not de:
                h = -1 if line is None else line
                if lines is not None:
                    lines += 1
                line = None
            if vs and not pvs:
                v = -1 if lines is None else lines
                lines = 0
            e[t] = (h, v)
        pde, pvs = de, vs
    return e


def fn(case):
    a = stimulus(case)
    n = len(a)
    s = dut(case.get("nb", 11))
    ps, pv = case["ps"], case["pv"]
    ph = case["ph"] % pv
    T = n*pv + 12*(ps + pv)
    pl = Play(s.design.csr)
    while pl.now()*ps < T:
        pl.rd("hres").rd("vres").idle(case["gap"])
    pl.idle(2)
    ts, doms = clocks(T, [("sys", ps, 0), ("pix", pv, ph)])
    mask = np.array([s.mask(x) for x in doms], dtype=np.uint32)
    r = s.run(len(mask), pl.bfms("sys") + [
        dict(kind="play", dom="pix", p=["valid_i", "vsync", "de"], a=a)], mask=mask)
    e = model(a)
    checked = 0
    kinds = set()
    for name, t, v in pl.results(r):
        col = 0 if name == "hres" else 1
        now = (t*ps - ph)//pv
        lo = (t*ps - 6*ps - ph)//pv - 5
        if lo < 0:
            continue
        w = e[min(n - 1, lo):min(n - 1, max(now, lo)) + 1, col]
        if (w < 0).any():
            continue
        checked += 1
        kinds.update(int(x) for x in w)
        if v not in w:
            raise Violation("{} reads {} at pixel clock {}, expected {}".format(name, v, now, sorted(set(int(x) for x in w))))
    return Info(nontrivial=checked > 0 and len(kinds) > 2, evals=checked, labels=["frames{}".format(min(9, len(case["frames"])))])


@st.composite
def frames(draw):
    out = []
    w0 = draw(st.integers(1, 20))
    for i in range(draw(st.integers(1, 5))):
        if draw(st.integers(0, 7)) == 0:
            out.append(["off", draw(st.integers(1, 60))])
            continue
        k = draw(st.integers(0, 9))
        if k == 0:
            widths = [draw(st.integers(1, 2047))]
        elif k == 1:
            widths = [1]*draw(st.integers(1, 400))
        elif k < 4:
            widths = draw(st.lists(st.integers(1, 40), max_size=10))
        else:
            if k > 6:
                w0 = draw(st.integers(1, 60))
            widths = [w0]*draw(st.integers(1, 20))
        drop = draw(st.one_of(st.none(), st.none(), st.none(), st.tuples(st.integers(0, 300), st.integers(1, 60)).map(list)))
        out.append(["f", widths, draw(st.integers(1, 12)), draw(st.integers(1, 20)), draw(st.integers(1, 8)), draw(st.integers(1, 30)), drop])
    return out


@st.composite
def cases(draw):
    return {"ps": draw(st.integers(1, 6)), "pv": draw(st.integers(1, 6)), "ph": draw(st.integers(0, 5)),
            "gap": draw(st.integers(0, 5)), "frames": draw(frames())}


def large(case):
    w, h = case["size"]
    return fn({"nb": case.get("nb", 11), "ps": 3, "pv": 2, "ph": 0, "gap": 3, "frames": [["f", [w]*h, 2, 4, 2, 3, None], ["f", [w]*h, 2, 4, 2, 3, None], ["f", [w, w], 2, 4, 2, 3, None]]})


LARGE = [[2, h] for h in (512, 1023, 1024, 1080, 1536, 2046, 2047)] + [[w, 3] for w in (512, 1023, 1024, 1280, 1536, 1920, 2046, 2047)] + [[160, 90]]


def subs(tier):
    return [Sub("large", large, cases=[{"size": x} for x in LARGE] + [{"size": x, "nb": b} for b in (8, 12, 13) for x in ([2, 2**b - 1], [2**b - 1, 3], [2, 2**(b - 1)], [2**(b - 1) + 1, 3])], rule="the largest sizes that the registers hold, also for registers of other widths"),
            Sub("rasters", fn, strategy=cases(), quick=300, thorough=8000,
                rule="generated frames of changing size, blanking, validity drops and clock ratios, read all the time; non-trivial = at least three different values were expected at some read")]
