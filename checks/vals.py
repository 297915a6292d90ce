"""Properties of single values: constant pools, descriptors, signatures, frames, handles, floats.  The
specification enumerates cases; what the code answered is validated against Values.tla (module ValueTrace)."""
import os
from classes import TRUST, random as random_classes


def run(c, what, cases):
    f, t = (os.path.join(c.work, what + x) for x in (".in", ".trace"))
    with open(f, "w") as h:
        h.write("\n".join(cases) + "\n")
    c.record("run-cases", f, t)
    c.trace_check("ValueTrace", t, what)
    os.remove(t)


def enumerated(c, what, module, consts, least, workers=1):
    r = c.tlc(module, consts=consts, workers=workers, name=module + "_" + what)
    c.cut(what, r, least)
    c.sample(r.cases[len(r.cases) // 2][:300])
    run(c, what, r.cases)


def strings(c, kind, alphabet, start, length):
    enumerated(c, f"strings-{kind}-{start}", "GenText",
               {"Kind": f'"{kind}"', "Alphabet": "{%s}" % ", ".join(str(ord(x)) for x in alphabet), "Start": ord(start) if start else 0,
                "MaxLen": length}, 1000, workers=8)


def random(c, topic, n, rounds=1):
    for k in range(rounds):
        what = "random-" + topic + ("" if rounds == 1 else str(k))
        t = os.path.join(c.work, what + ".trace")
        c.record("record-cases", c.seed * 1000 + k, n, topic, t)
        c.trace_check("ValueTrace", t, what)
        os.remove(t)


def c04(c):
    enumerated(c, "histories", "CpWriter", {"Depth_": 3}, 60000, workers=8)
    enumerated(c, "large", "GenVals", {"Part": '"histories"'}, 50)
    if c.thorough:
        for k, ops in enumerate(("{1, 2, 3, 7, 8, 9, 10, 12, 14, 16, 19, 20, 22, 26, 27, 36}", "{2, 6, 11, 13, 15, 17, 18, 21, 23, 24, 28, 29, 30, 31, 37, 40}")):
            enumerated(c, f"histories4-{k}", "CpWriter", {"Depth_": 4, "Ops": ops}, 60000, workers=8)
    random(c, "history", 800, c.pick(1, 12))
    return TRUST


def c05(c):
    enumerated(c, "pools", "GenVals", {"Part": '"pools"'}, 1500)
    random(c, "pool", 1200, c.pick(1, 12))
    return TRUST + ["member references whose tag disagrees with their descriptor, and a pool count of 0, are left open by the property"]


def c10(c):
    enumerated(c, "types", "GenSig", {"Part": '"desc"'}, 1500)
    enumerated(c, "edits", "GenSig", {"Part": '"descedits"'}, 10000)
    strings(c, "desc", "ILa;[()V", "", c.pick(5, 6))
    strings(c, "desc", "ILa;[)V", "(", c.pick(6, 7))
    strings(c, "desc", "()VI[", "(", c.pick(7, 8))
    random(c, "desc", 800, c.pick(1, 12))
    return TRUST + ["class names the JVM specification forbids are left open by the property"]


def c11(c):
    enumerated(c, "values", "GenSig", {"Part": '"sig"'}, 4000)
    enumerated(c, "edits", "GenSig", {"Part": '"sigedits"'}, 9000)
    for k in ("csig", "msig", "fsig", "tparam", "throws", "simple", "ctype", "type"):
        strings(c, k, "AILTV;:<>[.*+^()", "", c.pick(3, 4))
    strings(c, "csig", "A:;>LT", "<", c.pick(6, 7))
    strings(c, "fsig", "A<>*.;/T", "L", c.pick(5, 7))
    strings(c, "msig", ")V^TA;I", "(", c.pick(6, 7))
    strings(c, "msig", "()VI[^", "(", c.pick(6, 7))
    random(c, "sig", 400, c.pick(1, 12))
    return TRUST + ["nesting deeper than 256, and strings with unpaired surrogates, are left open by the property"]


def c17(c):
    enumerated(c, "frames", "GenVals", {"Part": '"frames"'}, 3000)
    enumerated(c, "frame-bytes", "GenVals", {"Part": '"frame-bytes"'}, 5000)
    random(c, "frame", 1000, c.pick(1, 12))
    return TRUST


def c18(c):
    enumerated(c, "handles", "GenVals", {"Part": '"handles"'}, 2500)
    random(c, "handle", 1000, c.pick(1, 12))
    return TRUST + ["field handles named <init> or <clinit> are left open by the property"]


def c19(c):
    enumerated(c, "floats", "GenVals", {"Part": '"floats"'}, 900)
    random(c, "floats", 300, c.pick(1, 12))
    random_classes(c, "numbers", 400, c.pick(1, 12))
    return TRUST


CHECKS = {"C04": c04, "C05": c05, "C10": c10, "C11": c11, "C17": c17, "C18": c18, "C19": c19}
