"""C07, C08, C09: modified UTF-8, the WTF-8 validator, the WTF-8 string machine."""
import os

TRUST = ["TLC and the JSON modules evaluate the specification correctly",
         "the harness's own code-point encoder builds the arguments it says it builds"]


def c07(c):
    r = c.tlc("Mutf8MC", "Mutf8Bytes", {"MaxPieces": c.pick(3, 4), "MaxCps": 3})
    c.cut("bytes", r, 5000)
    c.sample(*r.cases[100:103])
    c.replay("mutf8-bytes", "replay-mutf8", r.cases)
    r = c.tlc("Mutf8MC", "Mutf8Pieces", {"MaxPieces": c.pick(3, 4), "MaxCps": c.pick(5, 6)})
    c.cut("pieces", r, 10000)
    c.sample(*r.cases[3000:3003])
    c.replay("mutf8-pieces", "replay-mutf8", r.cases)
    t = os.path.join(c.work, "text.ndjson")
    c.record("record-text", c.seed, c.pick(6000, 60000), t)
    c.trace_check("TextTrace", t, "text-trace")
    return TRUST + ["raw NUL bytes and four-byte forms in modified UTF-8 input are left open by the property"]


def c08(c):
    c.tlc("Wtf8Auto")
    r = c.tlc("Wtf8Pieces", consts={"MaxPieces": c.pick(4, 5)})
    c.cut("pieces", r, 50000)
    c.sample(*r.cases[500:504])
    c.replay("validate-pieces", "replay-validate", r.cases)
    d = os.path.join(c.work, "delta.json")
    c.tlc("Wtf8Delta", env={"OUT": d})
    c.replay_file("validate-sweep", "sweep-wtf8", d, None, c.pick(4, 5), c.seed)
    t = os.path.join(c.work, "text.ndjson")
    c.record("record-text", c.seed + 1, c.pick(6000, 60000), t)
    c.trace_check("TextTrace", t, "text-trace")
    return TRUST


def c09(c):
    r = c.tlc("Wtf8BufMC")
    c.cut("machine", r, 50000)
    c.sample(*r.cases[1000:1003])
    c.replay("buf-transitions", "replay-buf", r.cases)
    r = c.tlc("Wtf8BufMC", consts={"Cps": "{0, 97, 55297, 56319, 56320, 1114111}", "MaxLen": c.pick(2, 3), "ArgLen": c.pick(1, 2)},
              name="Wtf8BufMC2")
    c.replay("buf-transitions2", "replay-buf", r.cases)
    r = c.tlc("Wtf8BufGen")
    c.cut("sweeps", r, 144000)
    c.replay("buf-sweeps", "replay-buf", r.cases)
    t = os.path.join(c.work, "buf.ndjson")
    c.record("record-buf", c.seed, c.pick(1500, 15000), t)
    c.trace_check("Wtf8BufTrace", t, "buf-histories")
    return TRUST


CHECKS = {"C07": c07, "C08": c08, "C09": c09}
