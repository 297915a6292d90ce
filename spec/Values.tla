------------------------------- MODULE Values -------------------------------
(***************************************************************************)
(* Single values: what an operation on a descriptor, signature, method         *)
(* handle, stack-map frame, constant pool or float may answer.  A verdict is    *)
(* "ok", "bad", or "open" where the properties leave it open.                   *)
(***************************************************************************)
EXTENDS ClassFile
Good(x) == IF x THEN "ok" ELSE "bad"
(* A result against what is denoted: d is <<1, value>>, Err or Open.           *)
Judge(d, r) == CASE d[1] < 0 -> IF r[1] = "panic" THEN "bad" ELSE "open"
                 [] d[1] = 0 -> Good(r[1] = "err")
                 [] OTHER -> Good(r[1] = "ok" /\ r[2] = d[2])

---------------------------------------------------------------------------
(* Descriptors and signatures.                                                *)
Parsed(e) == Judge(IF e.k = "desc" THEN Desc(e.s) ELSE Sig(e.k, e.s), e.r)
Printed(e) == Good(e.r[1] = "ok" /\ e.r[2] = (IF e.k = "desc" THEN PrintDesc(e.v) ELSE PrintSig(e.k, e.v)))

---------------------------------------------------------------------------
(* Method handles.  A handle is <<"h", kind, <<"m", owner, name, type, itf>>>>. *)
Init_ == <<60, 105, 110, 105, 116, 62>>
Clinit_ == <<60, 99, 108, 105, 110, 105, 116, 62>>
FieldKind(k) == k \in 1..4
ValidHandle(h) ==
  LET name == h[3][3]
      method == IsMethodType(h[3][4]) IN
  IF FieldKind(h[2]) THEN ~method
  ELSE method /\ name # Clinit_ /\ ((h[2] = 8) <=> (name = Init_))
(* The documentation forbids the special names for all kinds, the code asks    *)
(* only methods: a field of such a name is left open.                          *)
OpenHandle(h) == FieldKind(h[2]) /\ h[3][3] \in {Init_, Clinit_}
(* Stand-alone: a kind byte and a member reference.                            *)
PoolOf(b) == LET p == PoolAt([b |-> b, end |-> Len(b)], 1) IN IF Bad(p) \/ p[1] # Len(b) + 1 THEN <<>> ELSE p[2]
HandleAt(b, cp) ==
  IF Len(b) # 3 \/ b[1] \notin 1..9 THEN Err
  ELSE LET m == Member(cp, W2(b, 2)) IN
       IF Bad(m) THEN m ELSE <<1, <<"h", b[1], m[2]>>>>
SameHandle(h, b, cp) == LET d == HandleAt(b, cp) IN d[1] = 1 /\ d[2] = h
HandleEv(e) ==
  IF OpenHandle(e.v) THEN Good(e.c[1] # "panic" /\ e.w[1] # "panic")
  ELSE IF ValidHandle(e.v) THEN Good(e.c[1] = "ok" /\ e.w[1] = "ok" /\ SameHandle(e.v, e.w[2][1], PoolOf(e.w[2][2])))
  ELSE Good(e.c[1] = "err" /\ e.w[1] = "err")
HandleRead(e) ==
  LET d == HandleAt(e.b, PoolOf(e.pool)) IN
  IF d[1] = 1 THEN IF OpenHandle(d[2]) THEN Good(e.r[1] # "panic")
                   ELSE IF ValidHandle(d[2]) THEN Good(e.r[1] = "ok" /\ e.r[2] = <<d[2], 3>>) ELSE Good(e.r[1] = "err")
  ELSE Judge(d, e.r)

---------------------------------------------------------------------------
(* Stack-map frames.  Here an offset stands for itself.                        *)
FrameCtx(b, cp) == [b |-> b, end |-> Len(b), cp |-> cp, bt |-> <<>>, segs |-> <<<<0, 0, <<"nops", 65536>>>>>>, clen |-> 65536,
                    catches |-> <<>>, guide |-> <<>>, depth |-> 0]
BadFrame(f) == \/ f[1] = "chop" /\ f[3] \notin 1..3
               \/ f[1] = "append" /\ Len(f[3]) \notin 1..3
FrameEv(e) ==
  IF BadFrame(e.v) THEN Good(e.r[1] = "err")
  ELSE IF e.r[1] # "ok" THEN "bad"
  ELSE LET b == e.r[2][1]
           d == FrameAt(FrameCtx(b, PoolOf(e.r[2][2])), 1) IN
       Good(d[1] = Len(b) + 1 /\ d[2] = e.v)
FrameRead(e) ==
  LET d == FrameAt(FrameCtx(e.b, PoolOf(e.pool)), 1) IN
  Judge(IF Bad(d) THEN d ELSE <<1, <<d[2], d[1] - 1>>>>, e.r)

---------------------------------------------------------------------------
(* Constant-pool writer: every index returned denotes what was inserted; equal  *)
(* insertions share an index.  Bootstrap methods have indices of their own.     *)
IsBsm(op) == op[1] = "bsm"
(* Whether its owner is an interface does not matter to a field.                *)
PlainM(m) == IF m[5] = 1 /\ ~IsMethodType(m[4]) THEN [m EXCEPT ![5] = 0] ELSE m
Plain(op) == IF op[1] = "m" THEN PlainM(op) ELSE IF op[1] = "h" THEN [op EXCEPT ![3] = PlainM(@)] ELSE op
Canon1(op) ==
  CASE op[1] = "class7" -> <<"class", op[2]>>
    [] op[1] = "package20" -> <<"package", op[2]>>
    [] op[1] = "const" \/ (op[1] = "ordyn" /\ op[2][1] # "dyn") ->
         LET k == op[2] IN IF k[1] = "handle" THEN <<"h", k[2], k[3]>> ELSE IF k[1] = "member" THEN k[2] ELSE k
    [] op[1] = "ordyn" -> op[2]
    [] op[1] = "raw" /\ op[2] \in {1, 3, 4, 5, 6} ->
         <<CASE op[2] = 1 -> "utf8" [] op[2] = 3 -> "int" [] op[2] = 4 -> "float" [] op[2] = 5 -> "long" [] op[2] = 6 -> "double", op[3]>>
    [] OTHER -> op
Canon(op) == Plain(Canon1(op))      \* one form per value
Denotes(cp, op, i, bsmOf(_)) ==
  LET e == Entry(cp, i) IN
  CASE op[1] = "utf8" -> e = <<1, op[2]>>
    [] op[1] = "int" -> e = <<3, op[2]>>
    [] op[1] = "float" -> e = <<4, op[2]>>
    [] op[1] = "long" -> e = <<5, op[2]>> /\ i + 1 <= Len(cp) /\ cp[i + 1] = <<0>>
    [] op[1] = "double" -> e = <<6, op[2]>> /\ i + 1 <= Len(cp) /\ cp[i + 1] = <<0>>
    [] op[1] = "class" -> Named(cp, 7, i) = <<1, op[2]>>
    [] op[1] = "string" -> Named(cp, 8, i) = <<1, op[2]>>
    [] op[1] = "module" -> Named(cp, 19, i) = <<1, op[2]>>
    [] op[1] = "package" -> Named(cp, 20, i) = <<1, op[2]>>
    [] op[1] = "nat" -> e[1] = 12 /\ Utf8(cp, e[2]) = <<1, op[2]>> /\ Utf8(cp, e[3]) = <<1, PrintDesc(op[3])>>
    [] op[1] = "m" -> e[1] \in {9, 10, 11} /\ Member(cp, i) = <<1, op>>
    [] op[1] = "h" -> e[1] = 15 /\ e[2] = op[2] /\ Member(cp, e[3]) = <<1, op[3]>>
    [] op[1] = "mtype" -> e[1] = 16 /\ Utf8(cp, e[2]) = <<1, PrintDesc(op[2])>>
    [] op[1] = "dyn" -> /\ e[1] = (IF IsMethodType(op[4]) THEN 18 ELSE 17)
                        /\ bsmOf(op[2]) \in {-1, e[2]}
                        /\ NameAndType(cp, e[3]) = <<1, <<op[3], op[4]>>>>
    [] op[1] = "raw" -> e = Tail(op)
    [] OTHER -> FALSE
(* The indices idx handed out for a history of insertions into the pool cp.     *)
GoodHistory(history, idx, cp) ==
       LET ops == TLCEval([i \in 1..Len(history) |-> Canon(history[i])])
           n == Len(ops)
           (* The index by which a bootstrap method is known: from its own insertion, or *)
           (* from any dynamic entry that has it; -1 if unknown.                          *)
           bsmOf(b) == IF \E i \in 1..n : IsBsm(ops[i]) /\ ops[i][2] = b
                       THEN idx[CHOOSE i \in 1..n : IsBsm(ops[i]) /\ ops[i][2] = b]
                       ELSE LET S == {i \in 1..n : ops[i][1] = "dyn" /\ ops[i][2] = b} IN
                            IF S = {} THEN -1 ELSE LET i == CHOOSE i \in S : TRUE IN
                                                   IF Entry(cp, idx[i])[1] \in {17, 18} THEN Entry(cp, idx[i])[2] ELSE -1
           methods == {ops[i][2] : i \in {i \in 1..n : IsBsm(ops[i]) \/ ops[i][1] = "dyn"}} IN
            /\ Len(idx) = n
            /\ cp # <<>> \/ \A i \in 1..n : IsBsm(ops[i])
            /\ \A i \in 1..n : IsBsm(ops[i]) \/ Denotes(cp, ops[i], idx[i], bsmOf)
            /\ \A i, j \in 1..n : (IsBsm(ops[i]) <=> IsBsm(ops[j])) => ((ops[i] = ops[j]) => (idx[i] = idx[j]))
            /\ \A x, y \in methods : (x # y) => bsmOf(x) # bsmOf(y)
            (* No entry occurs twice.                                                  *)
            /\ \A i, j \in 1..Len(cp) : (i # j) => (cp[i] # cp[j] \/ cp[i] = <<0>>)
HistoryEv(e) == Good(e.r[1] = "ok" /\ GoodHistory(e.ops, e.r[2][1], PoolOf(e.r[2][2])))

---------------------------------------------------------------------------
(* Constant-pool lookups.                                                       *)
LookupKinds == {"int", "float", "long", "double", "utf8", "class", "name7", "name8", "name19", "name20", "nat", "const",
                "member", "handle", "dyn", "indy", "ordyn"}
RawDyn(cp, tag, i) ==
  LET e == Entry(cp, i) IN
  IF e[1] # tag THEN Err
  ELSE LET nt == NameAndType(cp, e[3]) IN
       IF Bad(nt) THEN nt ELSE IF IsMethodType(nt[2][2]) # (tag = 18) THEN Open ELSE <<1, <<<<e[2]>>, nt[2][1], nt[2][2]>>>>
Lookup(cp, k, i) ==
  CASE k = "int" -> Num(cp, 3, i)
    [] k = "float" -> Num(cp, 4, i)
    [] k = "long" -> Num(cp, 5, i)
    [] k = "double" -> Num(cp, 6, i)
    [] k = "utf8" -> Utf8(cp, i)
    [] k = "class" -> Named(cp, 7, i)
    [] k = "name7" -> Named(cp, 7, i)
    [] k = "name8" -> Named(cp, 8, i)
    [] k = "name19" -> Named(cp, 19, i)
    [] k = "name20" -> Named(cp, 20, i)
    [] k = "nat" -> NameAndType(cp, i)
    [] k = "const" -> Const(cp, i)
    [] k = "member" -> Member(cp, i)
    [] k = "handle" -> Handle(cp, i)
    [] k = "dyn" -> RawDyn(cp, 17, i)
    [] k = "indy" -> RawDyn(cp, 18, i)
    [] k = "ordyn" -> IF Entry(cp, i)[1] = 17 THEN RawDyn(cp, 17, i) ELSE Const(cp, i)
LookupsEv(e) ==
  LET p == PoolAt([b |-> e.b, end |-> Len(e.b)], 1) IN
  IF p[1] < 0 THEN (IF e.r[1] = "panic" THEN "bad" ELSE "open")
  ELSE IF p[1] = 0 THEN Good(e.r[1] = "err")
  ELSE IF e.r[1] # "ok" THEN "bad"
  ELSE LET cp == p[2]
           f == e.r[2]
           asked == (0..(Len(cp) + 2)) \cup {255, 256, 65535}
           found == {<<f[n][1], f[n][2]>> : n \in 1..Len(f)} IN
       Good(/\ \A n \in 1..Len(f) : LET d == Lookup(cp, f[n][1], f[n][2]) IN d[1] < 0 \/ (d[1] = 1 /\ d[2] = f[n][3])
            /\ \A k \in LookupKinds, i \in asked : <<k, i>> \in found \/ Lookup(cp, k, i)[1] # 1)

---------------------------------------------------------------------------
(* Floats are their bits: equality and hash follow them, the order is total.     *)
CompareEv(e) ==
  IF e.r[1] # "ok" THEN "bad"
  ELSE LET x == e.x
           m == e.r[2]
           D == 1..Len(x) IN
       Good(/\ \A i, j \in D : /\ (m.eq[i][j] = 1) <=> (x[i] = x[j])
                               /\ (m.feq[i][j] = 1) <=> (x[i] = x[j])
                               /\ (m.fne[i][j] = 1) <=> (x[i] # x[j])
                               /\ (m.hash[i][j] = 1) <=> (x[i] = x[j])
                               /\ m.lt[i][j] + m.gt[i][j] + m.eq[i][j] = 1
                               /\ m.lt[i][j] = m.gt[j][i]
                               /\ m.plt[i][j] = m.lt[i][j]
                               /\ (m.ple[i][j] = 1) <=> (m.lt[i][j] = 1 \/ x[i] = x[j])
            /\ \A i, j, k \in D : m.lt[i][j] = 1 /\ m.lt[j][k] = 1 => m.lt[i][k] = 1)

Verdict(e) == CASE e.e = "parse" -> Parsed(e)
                [] e.e = "print" -> Printed(e)
                [] e.e = "handle" -> HandleEv(e)
                [] e.e = "handle-read" -> HandleRead(e)
                [] e.e = "frame" -> FrameEv(e)
                [] e.e = "frame-read" -> FrameRead(e)
                [] e.e = "history" -> HistoryEv(e)
                [] e.e = "lookups" -> LookupsEv(e)
                [] e.e = "compare" -> CompareEv(e)
                [] OTHER -> "bad"
=============================================================================
