"""C13: frame parameters cross to the video clock as coherent sets, in order."""
import numpy as np
from hypothesis import strategies as st

from lib.pbt import Sub, Info, Violation, rng
from lib.hw import sim
from lib.csr import WithBank, Play
from vsim.sim import Design, clocks

PID = "C13"
PAR = [("hres", 12), ("hsync_start", 12), ("hsync_end", 12), ("hscan", 12),
       ("vres", 12), ("vsync_start", 12), ("vsync_end", 12), ("vscan", 12), ("base", 32), ("length", 32)]


def dut(dw):
    def make():
        from litevideo.output.core import Initiator
        m = WithBank(Initiator("vid"), dw)
        d = m.ports(Design(m, ["sys", "vid"]))
        s = m.dut.source
        d.port("valid", s.valid)
        d.port("ready", s.ready)
        for n, w in PAR:
            d.port("o_" + n, getattr(s, n))
        return d
    return sim(("init", dw), make)


def fn(case):
    s = dut(case["dw"])
    bank = s.design.csr
    pl = Play(bank)
    # state of the registers visible at each sys clock
    regs = [0]*len(PAR)
    en = 0
    hist = [(0, tuple(regs))]
    last = 0
    for op in case["ops"]:
        n0 = pl.now()
        if op[0] == "i":
            pl.idle(op[1])
            new = None
        elif op[0] == "e":
            pl.wr("enable", op[1])
            en = op[1]
        else:
            n, w = PAR[op[1]]
            v = op[2] & (2**w - 1)
            pl.wr(n, v)
            regs[op[1]] = v
        k = pl.now() - n0
        # the new value is visible in the clock after the access's last write
        hist += [hist[-1]]*(k - 1) + [(en, tuple(regs))] if k else []
    nops = pl.now()
    ready = case["ready"]
    tail = 48*len(ready) + 80
    ps, pv = case["ps"], case["pv"]
    T = nops*ps + tail*(ps + pv)
    ts, doms = clocks(T, [("sys", ps, 0), ("vid", pv, case["ph"] % pv)])
    mask = np.array([s.mask(x) for x in doms], dtype=np.uint32)
    r = s.run(len(mask), pl.bfms("sys") + [
        dict(kind="sink", dom="vid", name="o", p=["valid", "ready"] + ["o_" + n for n, w in PAR], ready=ready),
        dict(kind="rec", dom="vid", name="v", p=["valid"])], mask=mask)
    out = r.by["o"].log
    systep = np.flatnonzero([("sys" in x) for x in doms])      # step of each sys clock
    if r.by["o"].viol:
        raise Violation("the offered parameters changed before they were used (step {})".format(r.by["o"].violt))
    never = not any(e for e, _ in hist)
    if never:
        if len(out) or r.by["v"].log[:, 1].any():
            raise Violation("parameters are offered although video was never enabled")
        return Info(nontrivial=False, evals=len(mask))
    # greedy in-order matching of the sets used with instants of the registers
    full = hist + [hist[-1]]*max(0, len(systep) - len(hist))
    where = {}
    for t, (e, rg) in enumerate(full[:len(systep)]):
        if e:
            where.setdefault(rg, []).append(t)
    t = -1
    import bisect
    for j, row in enumerate(out):
        sset = tuple(int(x) for x in row[1:])
        l = where.get(sset, [])
        i = bisect.bisect_right(l, t)
        if i == len(l) or systep[l[i]] >= row[0]:
            raise Violation("parameter set {} used as number {} was {} in the registers{}".format(
                dict(zip([n for n, w in PAR], sset)), j,
                "not present" if not l else "not present again after the previous one used,",
                " while video was enabled before it was used"))
        t = l[i]
    # progress after the last access
    endstep = systep[min(nops, len(systep) - 1)]
    after = out[out[:, 0] > endstep]
    fe, fr = hist[-1]
    if fe:
        if not r.by["v"].log[-1, 1] and len(after) == 0:
            raise Violation("video is enabled but no parameters are ever offered")
        if len(after) < 16:
            raise Violation("video is enabled but only {} parameter sets were offered at the end".format(len(after)))
        lastset = tuple(int(x) for x in after[-1, 1:])
        if lastset != fr:
            raise Violation("after {} further frames the parameters written last are still not used: {}".format(len(after), lastset))
    else:
        if len(after) > 12 or r.by["v"].log[-1, 1]:
            raise Violation("parameters are still offered {} sets after video was disabled".format(len(after)))
    changes = len({tuple(int(x) for x in row[1:]) for row in out})
    return Info(nontrivial=changes >= 2, evals=len(mask), labels=["dw{}".format(case["dw"]), "on" if fe else "off"])


@st.composite
def cases(draw):
    wr = st.integers(0, len(PAR) - 1).flatmap(lambda i: st.tuples(st.just("w"), st.just(i), st.one_of(
        st.integers(1, 2**PAR[i][1] - 1), st.sampled_from([1, 2**(PAR[i][1] - 1), 2**PAR[i][1] - 1, 0x5a5a5a5a & (2**PAR[i][1] - 1)]))))
    op = st.one_of(wr, wr, wr, st.tuples(st.just("e"), st.sampled_from([1, 1, 1, 0])), st.tuples(st.just("i"), st.integers(1, 40)))
    ops = draw(st.lists(op, max_size=25))
    if draw(st.integers(0, 4)):
        ops.insert(draw(st.integers(0, min(4, len(ops)))), ("e", 1))
    return {"dw": draw(st.sampled_from([32, 8])), "ops": [list(x) for x in ops],
            "ps": draw(st.integers(1, 9)), "pv": draw(st.integers(1, 9)), "ph": draw(st.integers(0, 8)),
            "ready": draw(st.sampled_from([[1], [0, 1], [0]*9 + [1], [2], [0, 0, 2], [0]*23 + [1], [1, 1, 0, 0, 0]]))}


def subs(tier):
    return [Sub("histories", fn, strategy=cases(), quick=500, thorough=12000,
                rule="generated register writes, enable toggles and idle times over CSR buses of 8 and 32 bits, with arbitrary clock ratios and frame times; non-trivial = at least two different sets were used")]
