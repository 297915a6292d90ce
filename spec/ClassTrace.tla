----------------------------- MODULE ClassTrace -----------------------------
(***************************************************************************)
(* Validates recorded reads and writes of classes against ClassFile.        *)
(*   {"e":"read",  "b":bytes, "r":["ok", class] | ["err"] | ["panic"]}       *)
(*   {"e":"memory", "n":bytes given, "kb":kilobytes held at most}             *)
(*   {"e":"write", "k":"any", "r":["ok"] | ["err"] | ["panic"]}              *)
(*   {"e":"write", "k":kind, "p":class, "ev":n, "r":["ok", bytes] | ...}     *)
(***************************************************************************)
EXTENDS ClassFile, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
Chunk == IF N > 4000 THEN 100 ELSE IF N > 400 THEN 10 ELSE 1
(* Each event is judged by itself; chunks only spread the work over the workers. *)
VARIABLES l, last
Init == l = 0 /\ last = 0
Next == \/ l = 0 /\ \E i \in 1..N : (i - 1) % Chunk = 0 /\ l' = -i /\ last' = i + Chunk - 1
        \/ l < 0 /\ l' = -l /\ UNCHANGED last
        \/ l > 0 /\ l < last /\ l < N /\ l' = l + 1 /\ UNCHANGED last

(* Recorded bytes: a negative number stands for that many zeros.                *)
Zeros == [i \in 1..65536 |-> 0]
RECURSIVE NextRun(_, _), Unpack(_, _, _)
NextRun(b, i) == IF i > Len(b) \/ b[i] < 0 THEN i ELSE NextRun(b, i + 1)
Unpack(b, i, acc) ==
  LET j == NextRun(b, i) IN
  IF j > Len(b) THEN acc \o SubSeq(b, i, Len(b))
  ELSE Unpack(b, j + 1, acc \o SubSeq(b, i, j - 1) \o SubSeq(Zeros, 1, -b[j]))
Full(b) == IF \A i \in 1..Len(b) : b[i] >= 0 THEN b ELSE Unpack(b, 1, <<>>)
(* Bytes of an event: those marked x share the prefix given by the first event. *)
BytesOf(e) == IF e.x = 1 THEN Full(Trace[1].b) \o Full(e.b) ELSE Full(e.b)
(* A well-formed class file is read as the class it denotes; bytes that denote *)
(* no class are an error; nothing ends in a panic.                             *)
Read(b, r) ==
  LET d == DecodeClass(b, <<>>) IN
  CASE r[1] = "ok" -> IF d[1] = 1 THEN (IF d[2] = r[2] THEN "ok" ELSE "bad") ELSE IF d[1] < 0 THEN "open" ELSE "bad"
    [] r[1] = "err" -> IF d[1] = 0 THEN "ok" ELSE IF d[1] < 0 THEN "open" ELSE "bad"
    [] OTHER -> "bad"

---------------------------------------------------------------------------
(* What the format cannot hold.                                               *)
MaxSize(op) == CASE op[1] = "nops" -> op[2]
                 [] op[1] = "push" -> 3
                 [] op[1] \in {"load", "store", "ret"} -> 4
                 [] op[1] = "iinc" -> 6
                 [] op[1] = "if" -> IF op[2] = "always" THEN 5 ELSE 8
                 [] op[1] = "jsr" -> 5
                 [] op[1] = "tableswitch" -> 16 + 4 * Len(op[4])
                 [] op[1] = "lookupswitch" -> 12 + 8 * Len(op[3])
                 [] op[1] = "newarray" -> 4
                 [] op[1] \in {"field", "invoke", "new", "checkcast", "instanceof"} -> 3
                 [] op[1] \in {"invokeinterface", "invokedynamic"} -> 5
                 [] OTHER -> 1
RECURSIVE SumSize(_, _, _)
SumSize(ops, i, s) == IF i > Len(ops) THEN s ELSE SumSize(ops, i + 1, s + MaxSize(ops[i]))
BadOp(op) ==
  CASE op[1] = "if" -> op[3] < 0
    [] op[1] = "jsr" -> op[2] < 0
    [] op[1] = "tableswitch" -> \/ op[2] < 0 \/ op[4] = <<>> \/ \E i \in 1..Len(op[4]) : op[4][i] < 0
                                \/ op[3] > 2147483647 - (Len(op[4]) - 1)
    [] op[1] = "lookupswitch" -> op[2] < 0 \/ \E i \in 1..Len(op[3]) : op[3][i][2] < 0
    [] op[1] = "newarray" -> op[3] = 0
    [] OTHER -> FALSE
BadCatch(x) == x[1] < 0 \/ x[2] < 0 \/ x[3] < 0
BadRange(x) == x[1] < 0 \/ x[2] < x[1]
BadTarget(K, t) ==
  CASE t[1] \in {"var", "resource"} -> \E i \in 1..Len(t[2]) : BadRange(t[2][i])
    [] t[1] = "catch" -> BadCatch(t[2]) \/ t[2] \notin Range(K.catches)
    [] OTHER -> t[2] < 0
BadCode(K) ==
  \/ \E i \in 1..Len(K.ops) : BadOp(K.ops[i])
  \/ SumSize(K.ops, 1, 0) > 65535
  \/ \E i \in 1..Len(K.catches) : BadCatch(K.catches[i])
  \/ \E i \in 1..Len(K.vars) : BadRange(K.vars[i]) \/ (K.vars[i][4] = <<>> /\ K.vars[i][6] = <<>>)
  \/ \E i \in 1..Len(K.attrs) : /\ K.attrs[i][1] # "Raw"
                                /\ \E j \in 1..Len(K.attrs[i][2]) : BadTarget(K, K.attrs[i][2][j][1])
Codes(m) == OfKind(m[4], "Code")
Inexpressible(P) == \E i \in 1..Len(P.methods) : \E j \in 1..Len(Codes(P.methods[i])) : BadCode(Codes(P.methods[i])[j])

Guides(P) == [i \in 1..Len(P.methods) |-> IF Codes(P.methods[i]) = <<>> THEN <<>> ELSE Codes(P.methods[i])[1].ops]
(* The written class is the given one; its bootstrap table holds the explicit   *)
(* entries, and is exactly the explicit one if the class came from a file.       *)
Bsms(K) == Concat(OfKind(K.attrs, "BootstrapMethods"))
Tables(K) == Len(OfKind(K.attrs, "BootstrapMethods"))
Others(K) == NotKinds(K.attrs, {"BootstrapMethods"})
SameClass(P, Q, k) ==
  /\ P.minor = Q.minor /\ P.major = Q.major /\ P.access = Q.access /\ P.name = Q.name /\ P.super = Q.super
  /\ P.ifaces = Q.ifaces /\ P.fields = Q.fields /\ P.methods = Q.methods
  /\ Others(P) = Others(Q)
  /\ Range(Bsms(P)) \subseteq Range(Bsms(Q))
  /\ Tables(Q) <= 1 /\ (Tables(P) > 0 => Tables(Q) = 1)
  /\ k = "stable" => Bsms(P) = Bsms(Q) /\ (Tables(P) = 0 => Tables(Q) = 0)
Write(e) ==
  CASE e.k = "any" -> IF e.r[1] = "panic" THEN "bad" ELSE "ok"
    [] e.r[1] = "ok" -> LET d == DecodeClass(Full(e.r[2]), Guides(e.p)) IN
                        IF d[1] = 1 THEN (IF SameClass(e.p, d[2], e.k) THEN "ok" ELSE "bad")
                        ELSE IF d[1] < 0 /\ e.k # "gen" THEN "open" ELSE "bad"
    [] e.r[1] = "err" -> IF e.ev > 0 \/ Inexpressible(e.p) THEN "ok" ELSE "bad"
    [] OTHER -> "bad"

(* Memory held while reading n bytes.                                           *)
Memory(e) == IF e.kb <= 262144 + e.n THEN "ok" ELSE "bad"
(* Deep or long files: some end, whatever it is.  Nesting the JVM itself has no  *)
(* limit for is judged by the other checks up to MaxDepth.                       *)
(* What must survive is read, written, and then reads as the same.               *)
Must == {"must value", "must annotation", "must type annotation", "must chain"}
Deep(e) == IF e.w \in Must /\ (e.r[1] # "ok" \/ e.write[1] # "ok" \/ e.same # 1) THEN "bad" ELSE IF "panic" \in {e.r[1], e.write[1], e.drop[1]} THEN "bad" ELSE Memory(e)
(* A class at a limit of the format (Limits): written and read back the same if   *)
(* it fits, otherwise refused.                                                    *)
Limit(e) == CASE e.r[1] = "ok" -> IF e.want # "not" /\ e.r[2] = 1 THEN "ok" ELSE "bad"
              [] e.r[1] = "err" -> IF e.want # "fits" THEN "ok" ELSE "bad"
              [] OTHER -> "bad"
Verdict(e) == CASE e.e = "pre" -> "ok" [] e.e = "memory" -> Memory(e) [] e.e = "deep" -> Deep(e) [] e.e = "limit" -> Limit(e) [] e.e = "read" -> Read(BytesOf(e), e.r) [] e.e = "write" -> Write(e) [] OTHER -> "bad"
Check == \/ l <= 0
         \/ LET v == Verdict(Trace[l]) IN
            \/ v = "ok"
            \/ v = "open" /\ PrintT("OPEN " \o ToString(l))
            \/ v = "bad" /\ PrintT("REJECT " \o ToString(l))
=============================================================================
