"""Models of the vendor primitives used by the receiver (added after lowering)."""
from migen import Signal, If, Cat, ClockSignal
from migen.fhdl.structure import Constant

from lib.pbt import Violation
from vsim.sim import HarnessError


def settings(i, **want):
    """the parameters the model relies on"""
    for k, v in want.items():
        if k in i.params and str(i.params[k]).strip('"') != str(v):
            raise Violation("{} is set to {}={}, the words need {}".format(i.of, k, i.params[k], v))


def clocked(L, i, **want):
    """the clocks the model relies on"""
    for pin, dom in want.items():
        e = i.i_expr.get(pin)
        if isinstance(e, (Constant, bool, int)):
            raise Violation("{} has no clock on {}".format(i.of, pin))
        if isinstance(e, ClockSignal):
            n = [getattr(L, "orig", {}).get(e.cd, e.cd)]
        else:
            n = [k for k, cd in L.cds.items() if cd.clk is e]
        if n and dom not in n:
            raise Violation("{} is clocked by {} on {}, its words come with {}".format(i.of, n[0], pin, dom))


def tied(i, **want):
    """pins that switch on features the design does not use"""
    for pin, v in want.items():
        e = i.i_expr.get(pin)
        if isinstance(e, Constant):
            e = e.value
        if isinstance(e, (bool, int)) and int(e) != v:
            raise Violation("{} has {} tied to {}".format(i.of, pin, int(e)))


def running(i, ce):
    """not held in reset and enabled"""
    e = Constant(1)
    if "RST" in i.i:
        e = ~i.i["RST"]
    for p in ce:
        if p in i.i:
            e = e & i.i[p]
    return e


def find(L, of, **params):
    return [i for i in L.instances if i.of == of and all(str(i.params.get(k)) == str(v) for k, v in params.items())]


def one(L, of, **params):
    r = find(L, of, **params)
    if len(r) != 1:
        raise HarnessError("{} instances of {} {}".format(len(r), of, params))
    return r[0]


def link(L, inst, out, expr):
    if out in inst.o:
        L.f.comb.append(inst.o[out].eq(expr))


def port(d, inst, name, pin):
    """the harness sees (and, for outputs, drives) a pin"""
    if pin in inst.i:
        d.port(name, inst.i[pin])
    elif pin in inst.o:
        d.port(name, inst.o[pin])
    else:
        d.port(name, Signal())


def s6_capture(L, d):
    """one S6DataCapture: ports q (5 bits, oldest first), pd_valid, pd_incdec, busy lengths and the pins"""
    ib = one(L, "IBUFDS")
    link(L, ib, "O", ib.i["I"])
    q, v, i = Signal(5), Signal(), Signal()
    for n, s in (("q", q), ("pd_valid", v), ("pd_incdec", i)):
        d.port(n, s)
    for mode, x in (("MASTER", "m"), ("SLAVE", "s")):
        dl = one(L, "IODELAY2", SERDES_MODE=mode)
        settings(dl, DELAY_SRC="IDATAIN", DATA_RATE="SDR", IDELAY_TYPE="DIFF_PHASE_DETECTOR")
        clocked(L, dl, CLK="pix2x", IOCLK0="pix10x")
        tied(dl, T=1)
        link(L, dl, "DATAOUT", dl.i["IDATAIN"])
        ln, cnt = Signal(8), Signal(8)
        L.f.sync["pix2x"] += [
            If(dl.i["RST"], cnt.eq(0)
            ).Elif(dl.i["CAL"] | dl.i["CE"], cnt.eq(ln)
            ).Elif(cnt != 0, cnt.eq(cnt - 1))]
        busy = Signal()
        L.f.comb.append(busy.eq(cnt != 0))
        link(L, dl, "BUSY", busy)
        d.port("len_" + x, ln)
        d.port("busy_" + x, busy)
        for p in ("CAL", "RST", "INC", "CE"):
            port(d, dl, p.lower() + "_" + x, p)
        sd = one(L, "ISERDES2", SERDES_MODE=mode)
        s6_deserialiser(L, sd)
        on = running(sd, ["CE0"])
        port(d, sd, "d_" + x, "D")
        if x == "m":
            for k in range(1, 5):
                link(L, sd, "Q{}".format(k), q[k] & on)
            link(L, sd, "VALID", v & on)
            link(L, sd, "INCDEC", i)
        else:
            link(L, sd, "Q4", q[0] & on)


def s6_deserialiser(L, i):
    settings(i, DATA_RATE="SDR", DATA_WIDTH=5, BITSLIP_ENABLE="FALSE", INTERFACE_TYPE="RETIMED")
    clocked(L, i, CLK0="pix10x", CLKDIV="pix2x")


def s7_deserialiser(L, i):
    settings(i, DATA_RATE="DDR", DATA_WIDTH=8, INTERFACE_TYPE="NETWORKING", IOBDELAY="IFD", SERDES_MODE="MASTER")
    clocked(L, i, CLK="pix5x", CLKDIV="pix1p25x")
    tied(i, BITSLIP=0)


def s7_capture(L, d):
    """one S7DataCapture: ports qm, qs (8 bits, oldest first), tap counters and the pins"""
    ib = one(L, "IBUFDS_DIFF_OUT")
    link(L, ib, "O", ib.i["I"])
    link(L, ib, "OB", ~ib.i["I"])
    dls = find(L, "IDELAYE2")
    sds = find(L, "ISERDESE2")
    if len(dls) != 2 or len(sds) != 2:
        raise HarnessError("delay or deserialiser primitives not found")
    # the slave is the one fed from the inverted output
    if dls[1].i_expr.get("IDATAIN") is ib.o_expr.get("O"):
        dls = dls[::-1]
    if sds[1].i_expr.get("DDLY") is dls[0].o_expr.get("DATAOUT"):
        sds = sds[::-1]
    for dl, sd, x in zip(dls, sds, "ms"):
        settings(dl, DELAY_SRC="IDATAIN", IDELAY_TYPE="VARIABLE", SIGNAL_PATTERN="DATA", CINVCTRL_SEL="FALSE")
        clocked(L, dl, C="pix1p25x")
        link(L, dl, "DATAOUT", dl.i["IDATAIN"])
        cnt = Signal(5)
        L.f.sync["pix1p25x"] += [
            If(dl.i["LD"], cnt.eq(0)
            ).Elif(dl.i["CE"], If(dl.i["INC"], cnt.eq(cnt + 1)).Else(cnt.eq(cnt - 1)))]
        link(L, dl, "CNTVALUEOUT", cnt)
        d.port("cnt_" + x, cnt)
        for p in ("LD", "CE", "INC"):
            port(d, dl, p.lower() + "_" + x, p)
        s7_deserialiser(L, sd)
        on = running(sd, ["CE1"])
        port(d, sd, "d_" + x, "DDLY")
        q = Signal(8)
        for k in range(8):
            link(L, sd, "Q{}".format(8 - k), q[k] & on)
        d.port("q" + x, q)


def serial_receivers(L, d, dev, pix="pix"):
    """every buffer, delay and deserialiser of the design, at the bit level; domain vbit ticks once a bit"""
    cap = {6: "pix2x", 7: "pix1p25x"}[dev]
    vbit = L.f.sync.setdefault("vbit", [])
    div = L.f.sync.setdefault(cap, [])
    unlock = Signal()
    d.port("unlock", unlock)
    for i in L.instances:
        for p in ("LOCKED", "LOCK", "SERDESSTROBE"):
            if p in i.o:
                L.f.comb.append(i.o[p].eq(1 if p == "SERDESSTROBE" else ~unlock))
        if i.of in ("IBUFDS", "IBUFDS_DIFF_OUT"):
            link(L, i, "O", i.i["I"])
            link(L, i, "OB", ~i.i["I"])
        elif i.of in ("IODELAY2", "IDELAYE2"):
            link(L, i, "DATAOUT", i.i["IDATAIN"])
        elif i.of == "ISERDES2":
            sr, q = Signal(4), Signal(4)                    # newest bit last
            slave = i.params.get("SERDES_MODE") == "SLAVE"
            s6_deserialiser(L, i)
            on = running(i, ["CE0"])
            vbit.append(sr.eq(Cat(sr[1:], i.i["SHIFTIN" if slave else "D"])))
            div.append(q.eq(sr))
            for k in range(4):
                link(L, i, "Q{}".format(k + 1), q[k] & on)
            link(L, i, "SHIFTOUT", sr[0])
        elif i.of == "ISERDESE2":
            sr, q = Signal(8), Signal(8)
            s7_deserialiser(L, i)
            on = running(i, ["CE1"])
            vbit.append(sr.eq(Cat(sr[1:], i.i["DDLY"])))
            div.append(q.eq(sr))
            for k in range(8):
                link(L, i, "Q{}".format(8 - k), q[k] & on)
