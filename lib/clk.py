"""A clock tree at work: PLLs and clock buffers as models ticking in the fast domain "vt"."""
from migen import Signal, If, Mux
from migen.fhdl.structure import Constant

from lib import xil
from lib.pbt import Violation

PLLS = ("PLL_ADV", "MMCME2_ADV", "PLLE2_ADV")
FIX = 64


def _num(i, names, default):
    for n in names:
        if n in i.params:
            v = i.params[n]
            return float(str(v).strip('"'))
    return float(default)


def pll(L, i, lockn, kill):
    """locks after lockn periods of its feedback clock equal to its (divided) input; kill takes the lock away"""
    vt = L.f.sync.setdefault("vt", [])
    mult = round(_num(i, ["CLKFBOUT_MULT_F", "CLKFBOUT_MULT"], 1)*FIX)
    div = round(_num(i, ["DIVCLK_DIVIDE"], 1))
    rst = i.i.get("RST", Constant(0))
    ck = i.i.get("CLKIN1", Constant(0))
    if "CLKINSEL" in i.i:
        ck = Mux(i.i["CLKINSEL"], ck, i.i.get("CLKIN2", Constant(0)))
    if "PWRDWN" in i.i:
        ck = ck & ~i.i["PWRDWN"]
    p, cnt, per, ok = Signal(), Signal(12), Signal(12), Signal(3)
    vt += [p.eq(ck),
           If(ck & ~p, cnt.eq(1), per.eq(cnt),
              If(rst | (cnt != per), ok.eq(0)).Elif(ok != 7, ok.eq(ok + 1))
           ).Elif(cnt != 4095, cnt.eq(cnt + 1)),
           If(rst, ok.eq(0))]
    run, go = Signal(), Signal()
    L.f.comb.append(go.eq(ck & ~p & (ok >= 3) & ~run))
    vt += [If(rst | (ok == 0), run.eq(0)).Elif(go, run.eq(1))]

    def out(o, d, phase, duty=0.5):
        lim, acc, lvl, st = Signal(40), Signal(40), Signal(), Signal(40)
        L.f.comb += [lim.eq(per*round(d*div*FIX)), lvl.eq(run & (acc < ((lim*round(duty*256)) >> 8))), i.o[o].eq(lvl),
                     # a phase is a late start
                     st.eq((lim*round(((360 - phase) % 360)/360*4096)) >> 12)]
        vt.append(If(go, acc.eq(st)).Elif(acc + mult >= lim, acc.eq(acc + mult - lim)).Else(acc.eq(acc + mult)))
    for k in range(7):
        o = "CLKOUT{}".format(k)
        if o in i.o:
            out(o, _num(i, [o + "_DIVIDE_F", o + "_DIVIDE"], 1), _num(i, [o + "_PHASE"], 0), _num(i, [o + "_DUTY_CYCLE"], 0.5))
    locked = Signal(8)
    lk = Signal()
    if "CLKFBOUT" in i.o:
        out("CLKFBOUT", mult/FIX, _num(i, ["CLKFBOUT_PHASE"], 0))
        fb = i.i["CLKFBIN"]
        fp, fc = Signal(), Signal(14)
        vt += [fp.eq(fb),
               If(fb & ~fp,
                  fc.eq(1),
                  If(fc != per*div, locked.eq(0)).Elif(locked != 255, locked.eq(locked + 1))
               ).Elif(fc != 2**14 - 1, fc.eq(fc + 1)).Else(locked.eq(0)),
               If(rst | ~run | kill, locked.eq(0))]
    L.f.comb.append(lk.eq(~rst & run & ~kill & (locked > lockn)))
    if "LOCKED" in i.o:
        L.f.comb.append(i.o["LOCKED"].eq(lk))
    return lk, rst


def buffers(L, i):
    if i.of in ("BUFG", "BUFR", "BUFH", "BUFIO", "BUFIO2", "IBUFG", "IBUF"):
        if str(i.params.get("BUFR_DIVIDE", "BYPASS")).strip('"') != "BYPASS" or str(i.params.get("DIVIDE", 1)) != "1":
            raise Violation("{} divides the clock".format(i.of))
        e = i.i["I"]
        if "CE" in i.i:
            e = e & i.i["CE"]
        if "CLR" in i.i:
            e = e & ~i.i["CLR"]
        xil.link(L, i, "O", e)
    elif i.of in ("IBUFDS", "IBUFGDS", "IBUFDS_DIFF_OUT", "OBUFDS"):
        xil.link(L, i, "O", i.i["I"])
        xil.link(L, i, "OB", ~i.i["I"])
    elif i.of == "BUFPLL":
        xil.link(L, i, "IOCLK", i.i["PLLIN"])
        xil.link(L, i, "LOCK", i.i["LOCKED"])
    elif i.of == "ODDR2":
        on = ~i.i["R"] & i.i["CE"]
        xil.link(L, i, "Q", (((i.i["C0"] & i.i["D0"]) | (~i.i["C0"] & i.i["D1"])) & on) | i.i["S"])
    else:
        return False
    return True
