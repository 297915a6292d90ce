"""Class-file properties: cases generated from the specification, replayed into the code; what the code
read and wrote is validated against ClassFile.tla (module ClassTrace)."""
import json, os
from lib import ToolError

TRUST = ["TLC and the JSON modules evaluate the specification correctly",
         "the harness's projection (harness/src/abs.rs) shows the values the code holds"]


def count_events(path):
    n = {}
    with open(path) as h:
        for l in h:
            i = l.find('"r":["')
            e = "write" if '"e":"write"' in l[:4000] else "read" if '"e":"read"' in l else "other"
            if i >= 0:
                j = l.find('"', i + 6)
                k = e + " " + l[i + 6:j]
                n[k] = n.get(k, 0) + 1
    return n


def validate(c, what, trace, **kw):
    r = c.trace_check("ClassTrace", trace, what, **kw)
    return r


def generated(c, what, module, consts, least, mode="chain", **kw):
    """TLC enumerates class files; the code reads them, writes what it read, reads that again ..."""
    return run_bytes(c, what, enumerated(c, what, module, consts, least), mode, **kw)


def values(c, what, module, consts, least):
    """TLC enumerates classes; the code writes each, reads it back, writes that again."""
    return run_values(c, what, enumerated(c, what, module, consts, least))


def run_values(c, what, f, **kw):
    t = os.path.join(c.work, what + ".trace")
    c.record("run-values", f, t, **kw)
    validate(c, what, t)
    os.remove(t)


def run_bytes(c, what, f, mode="chain", **kw):
    t = os.path.join(c.work, what + ".trace")
    c.record("run-bytes", f, t, mode, **kw)
    validate(c, what, t)
    os.remove(t)


def enumerated(c, what, module, consts, least):
    r = c.tlc(module, consts=consts, workers=1, name=module + "_" + what)
    c.cut(what, r, least)
    c.sample(r.cases[len(r.cases) // 2][-300:])
    f = os.path.join(c.work, what + ".in")
    with open(f, "w") as h:
        h.write("\n".join(r.cases) + "\n")
    return f


def large(c, *parts):
    """Classes with more of something than a byte counts, and special values in every place."""
    for p in parts:
        values(c, "large-" + p, "GenLarge", {"Part": '"%s"' % p}, LARGE[p])


LARGE = {"pool": 200, "types": 700, "lists": 90, "args": 48, "annotations": 650, "catches": 280, "debug": 450, "switches": 60, "raw": 140, "texts": 640}


def random(c, topic, n, rounds=1):
    """Random classes: written, read back, written again; every step validated against the specification."""
    for k in range(rounds):
        what = "random-" + topic + ("" if rounds == 1 else str(k))
        t = os.path.join(c.work, what + ".trace")
        c.record("record-values", c.seed * 1000 + k, n, topic, t)
        validate(c, what, t)
        os.remove(t)


def corpus_file(c, n, most):
    import zipfile
    f = os.path.join(c.work, "corpus.in")
    with zipfile.ZipFile(JAR) as z, open(f, "w") as h:
        names = sorted(x.filename for x in z.infolist() if x.filename.endswith(".class") and x.file_size < most)
        step = max(1, len(names) // n)
        for x in names[c.seed % step::step]:
            h.write(json.dumps([x, list(z.read(x))]) + "\n")
    return f


def corpus(c, n):
    """Real classes, from the jar the repository's tests use."""
    run_bytes(c, "corpus", corpus_file(c, n, c.pick(20000, 60000)))


JAR = "/repo/src/tests/jars/scaladoc_3-3.1.3.jar"


def c01(c):
    generated(c, "attributes", "GenAttrs", {"Kinds": '"plain"', "AllIndices": c.pick("FALSE", "TRUE")}, 700)
    random(c, "class", 600, c.pick(1, 12))
    large(c, "lists", "texts", "types")
    # The parts of a class have properties of their own; some of each belong to the whole.
    generated(c, "annotations", "GenAttrs", {"Kinds": '"annotations"'}, 3000)
    generated(c, "debug", "GenAttrs", {"Kinds": '"debug"'}, 150)
    for topic in ("annotations", "code", "debug", "dynamics", "framing"):
        random(c, topic, 150, c.pick(1, 4))
    corpus(c, c.pick(60, 10000))
    return TRUST


def c02(c):
    generated(c, "opcodes", "GenInsn", {"Part": '"plain"'}, 1500)
    generated(c, "pool-operands", "GenInsn", {"Part": '"index"', "AllIndices": "TRUE"}, 1500)
    large(c, "pool", "types")
    random(c, "code", 1000, c.pick(1, 12))
    return TRUST


def c03(c):
    generated(c, "jumps", "GenInsn", {"Part": '"jump"'}, 1200)
    for part, least in (("far", 300), ("pair", 2000), ("switch", 250), ("cascade", 250), ("unplaced", 60)):
        values(c, part, "GenLayout", {"Part": '"%s"' % part, "Wide": c.pick("FALSE", "TRUE")}, least)
    large(c, "switches", "catches")
    random(c, "layout", 150, c.pick(1, 12))
    return TRUST


def c06(c):
    for part, least in (("small", 600), ("three", 450), ("args", 600), ("deep", 50), ("places", 55)):
        generated(c, part, "GenDyn", {"Part": '"%s"' % part}, least)
    for part, least in (("uses", 550), ("tables", 700), ("three", 500), ("near", 2300)):
        values(c, "v-" + part, "GenDynVals", {"Part": '"%s"' % part}, least)
    recorded(c, "chains", "run-deep", enumerated(c, "chains", "GenDeep", {"Part": '"chains"'}, 45), None, mem_gb=4)
    large(c, "args")
    random(c, "dynamics", 400, c.pick(1, 12))
    return TRUST


def recorded(c, what, cmd, *args, **kw):
    t = os.path.join(c.work, what + ".trace")
    c.record(cmd, *[t if a is None else a for a in args], **kw)
    validate(c, what, t)
    os.remove(t)


TOPICS = "class,code,annotations,debug,dynamics,framing"


def c12(c):
    for base, least in (("code", 14000), ("annotations", 14000), ("class", 16000), ("dynamic", 6500)):
        k = {"Base": '"%s"' % base, "Values": c.pick('"some"', '"all"')}
        generated(c, base, "GenCorrupt", k, least, "any", mem_gb=4)
    recorded(c, "deep", "run-deep", enumerated(c, "deep", "GenDeep", {"Big": c.pick("FALSE", "TRUE")}, 400), None, mem_gb=4)
    for k in range(c.pick(1, 15)):
        recorded(c, "damaged%d" % k, "record-corrupt", c.seed * 1000 + k, 120, 25, TOPICS, None, mem_gb=4)
    recorded(c, "damaged-corpus", "corrupt-file", corpus_file(c, c.pick(60, 1000), 4000), None, c.seed, c.pick(10, 20), mem_gb=4)
    return TRUST


def c13(c):
    generated(c, "framing", "GenAttrs", {"Kinds": '"framing"'}, 700)
    large(c, "raw")
    random(c, "framing", 800, c.pick(1, 12))
    return TRUST


def c14(c):
    generated(c, "annotations", "GenAttrs", {"Kinds": '"annotations"', "AllIndices": c.pick("FALSE", "TRUE")}, 3000)
    recorded(c, "nested", "run-deep", enumerated(c, "nested", "GenDeep", {"Part": '"annotations"'}, 170), None, mem_gb=4)
    large(c, "annotations", "catches")
    random(c, "annotations", 800, c.pick(1, 12))
    return TRUST


def c15(c):
    for part, least in (("lists", 125), ("small", 340), ("texts", 600), ("slots", 100), ("table", 3)):
        recorded(c, part, "run-limits", enumerated(c, part, "GenLimits", {"Part": '"%s"' % part}, least), None, mem_gb=12)
    for part, least in (("code", 1300), ("sizes", 590)):
        values(c, part, "GenLimits", {"Part": '"%s"' % part}, least)
    return TRUST


def c16(c):
    generated(c, "tables", "GenAttrs", {"Kinds": '"debug"', "AllIndices": c.pick("FALSE", "TRUE")}, 150)
    values(c, "edges", "GenLayout", {"Part": '"edges"', "Wide": "FALSE"}, 20)
    large(c, "debug")
    random(c, "debug", 800, c.pick(1, 12))
    return TRUST


CHECKS = {"C01": c01, "C02": c02, "C03": c03, "C06": c06, "C12": c12, "C13": c13, "C14": c14, "C15": c15, "C16": c16}
