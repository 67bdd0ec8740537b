#!/usr/bin/env python3
"""check.py <property>: decides one property on /repo's current tree (see DESIGN.md)."""
import os, sys, traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
from run import Run, Broken


def both_conventions(r, gen, judge):
    scn = r.generate(gen)
    for feats in ((), ("left",)):
        r.judge(judge, r.execute(scn, feats), LEFT=int("left" in feats))


def all_conventions(r, gen, judge, quick=((), ("left",), ("fake_exp",)), thorough=(("fake_exp", "left"),)):
    scn = r.generate(gen)
    for feats in quick + (thorough if r.thorough else ()):
        r.judge(judge, r.execute(scn, feats), LEFT=int("left" in feats), FAKE=int("fake_exp" in feats))


def c01(r):
    r.judge("C01_Trace", r.execute(r.behaviours("C01_Model", share=1 if r.thorough else 2)))
    r.gej("C01_Gen", "C01_Trace")


def c02(r):
    all_conventions(r, "C02_Gen", "C02_Trace", ((), ("left",)), (("fake_exp",), ("fake_exp", "left")))


def c03(r):
    hist = r.behaviours("C03_Model", share=4 if r.thorough else 40)
    scn = r.generate("C03_Gen", HIST=hist)
    for feats in ((), ("left",)):
        r.judge("C03_Trace", r.execute(scn, feats), LEFT=int("left" in feats))


def c04(r):
    r.selfcheck()
    r.judge("C04_Trace", r.execute(r.behaviours("C04_Model")))
    r.gej("C04_Pairs", "C04_Trace")
    r.gej("C04_Gen", "C04_Trace")


def c05(r):
    scn = r.generate("C05_Gen", HIST=r.behaviours("C05_Model", share=4 if r.thorough else 20))
    r.judge("C05_Trace", r.execute(scn), LEFT=0)


def c06(r):
    scn = r.behaviours("C06_Model", share=1 if r.thorough else 8)
    r.judge("C06_Trace", r.execute(scn))
    r.gej("C06_Gen", "C06_Trace")


def c07(r):
    r.gej("C07_Gen", "C07_Trace")


def c08(r):
    r.gej("C08_Gen", "C08_Trace")


def c09(r):
    all_conventions(r, "C09_Gen", "C09_Trace")


def c10(r):
    r.gej("C10_Gen", "C10_Trace")


def c11(r):
    scn = r.generate("C11_Gen")
    for feats in ((), ("left",), ("uservars",), ("left", "uservars")):
        r.judge("C11_Trace", r.execute(scn, feats), LEFT=int("left" in feats))


def c12(r):
    r.bin()
    if r.forms:
        r.violations.append({"stage": "build", "module": "C12_Gen", "case": 0, "event": 0, "scenario": "documented forms of fac!", "observed": [],
                             "clauses": "a documented form of fac! does not compile: " + r.forms})
        return
    r.gej("C12_Gen", "C12_Trace")


def c13(r):
    r.gej("C13_Gen", "C13_Trace")


def c14(r):
    r.gej("C14_Gen", "C14_Trace")


def c15(r):
    r.gej("C15_Gen", "C15_Trace")


def c16(r):
    all_conventions(r, "C16_Gen", "C16_Trace", ((), ("left",), ("fake_exp",), ("left", "uservars")), (("fake_exp", "left"), ("uservars",)))


def c17(r):
    both_conventions(r, "C17_Gen", "C17_Trace")


def c18(r):
    both_conventions(r, "C18_Gen", "C18_Trace")


def c19(r):
    both_conventions(r, "C19_Gen", "C19_Trace")


def c20(r):
    all_conventions(r, "C20_Gen", "C20_Trace", ((), ("left",)), (("fake_exp",), ("fake_exp", "left")))


def c22(r):
    all_conventions(r, "C22_Gen", "C22_Trace")
    single = r.generate("C22_Gen", name="C22_Single", SINGLE=1)
    r.judge("C22_Trace", r.execute(single, ("f32",)), LEFT=0, FAKE=0)


def c23(r):
    r.gej("C23_Gen", "C23_Trace", features=("rerun",))


CHECKS = {k.upper(): v for k, v in list(globals().items()) if k[0] == "c" and k[1:].isdigit()}


def main():
    prop = sys.argv[1]
    try:
        r = Run(prop)
        CHECKS[prop](r)
        sys.exit(r.finish())
    except Broken as e:
        print(f"{prop}: no answer: {e}")
        sys.exit(2)


if __name__ == "__main__":
    main()
