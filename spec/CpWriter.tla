------------------------------ MODULE CpWriter ------------------------------
(***************************************************************************)
(* The constant-pool writer as a machine: a pool that only grows, an Insert    *)
(* action that hands out indices.  Checked: after every history all indices     *)
(* denote what was inserted (GoodHistory).  The histories are emitted and       *)
(* replayed into the code.                                                       *)
(***************************************************************************)
EXTENDS Values, Json
CONSTANTS Depth_,         \* length of the histories
          Ops             \* numbers of the insertions used
A == <<65>>
I == <<"I">>
V0 == <<"(", <<>>, <<>>>>
MemF == <<"m", A, A, I, 0>>
MemM == <<"m", A, A, V0, 0>>
MemI == <<"m", A, A, V0, 1>>
Hnd(k, m) == <<"h", k, m>>
Z4 == <<0, 0, 0, 0>>
Z8 == <<0, 0, 0, 0, 0, 0, 0, 0>>
M4 == <<128, 0, 0, 0>>
M8 == <<128, 0, 0, 0, 0, 0, 0, 0>>
Bsm(args) == <<Hnd(6, MemM), args>>
Dyn0 == <<"dyn", Bsm(<<>>), A, I>>
OpAt(n) ==
  CASE n = 1 -> <<"utf8", A>>              [] n = 2 -> <<"class", A>>
    [] n = 3 -> <<"string", A>>            [] n = 4 -> <<"module", A>>
    [] n = 5 -> <<"package", A>>           [] n = 6 -> <<"int", Z4>>
    [] n = 7 -> <<"float", Z4>>            [] n = 8 -> <<"float", M4>>
    [] n = 9 -> <<"long", Z8>>             [] n = 10 -> <<"double", Z8>>
    [] n = 11 -> <<"double", M8>>          [] n = 12 -> <<"nat", A, I>>
    [] n = 13 -> MemF                      [] n = 14 -> MemM
    [] n = 15 -> MemI                      [] n = 16 -> Hnd(6, MemM)
    [] n = 17 -> Hnd(6, MemI)              [] n = 18 -> <<"const", <<"mtype", V0>>>>
    [] n = 19 -> Dyn0                      [] n = 20 -> <<"dyn", Bsm(<< <<"int", Z4>> >>), A, I>>
    [] n = 21 -> <<"dyn", Bsm(<<>>), A, V0>>
    [] n = 22 -> <<"bsm", Bsm(<<>>)>>      [] n = 23 -> <<"bsm", Bsm(<< <<"float", Z4>> >>)>>
    [] n = 24 -> <<"utf8", <<73>>>>        [] n = 25 -> <<"const", <<"class", A>>>>
    [] n = 26 -> <<"raw", 5, Z8>>          [] n = 27 -> <<"ordyn", Dyn0>>
    [] n = 28 -> <<"float", <<127, 192, 0, 0>>>> [] n = 29 -> <<"float", <<255, 192, 0, 0>>>>
    [] n = 30 -> <<"double", <<127, 248, 0, 0, 0, 0, 0, 1>>>> [] n = 31 -> <<"double", <<127, 248, 0, 0, 0, 0, 0, 0>>>>
    [] n = 32 -> <<"class7", A>>           [] n = 33 -> <<"package20", A>>
    [] n = 34 -> <<"const", <<"string", A>>>> [] n = 35 -> <<"const", <<"long", Z8>>>>
    [] n = 36 -> <<"dyn", Bsm(<<Dyn0>>), A, I>> [] n = 37 -> <<"raw", 7, 1>>
    [] n = 38 -> <<"raw", 8, 1>>           [] n = 39 -> <<"raw", 4, M4>>
    [] n = 40 -> <<"ordyn", <<"handle", 6, MemM>>>>

(* -- the machine ------------------------------------------------------------ *)
VARIABLES pool, bsms, hist, idx
vars == <<pool, bsms, hist, idx>>
Same(e, f) == e[1] = f[1] /\ e = f
(* A state of the writer is <<pool, bsms>>; every Ins.. gives <<state, index>>.  *)
Put(st, e) ==
  IF \E i \in 1..Len(st[1]) : Same(st[1][i], e) THEN <<st, CHOOSE i \in 1..Len(st[1]) : Same(st[1][i], e)>>
  ELSE LET p == Append(st[1], e) IN <<<<IF Wide2(e) THEN Append(p, <<0>>) ELSE p, st[2]>>, Len(p)>>
PutU(st, s) == Put(st, <<1, s>>)
PutNamed(st, tag, s) == LET u == PutU(st, s) IN Put(u[1], <<tag, u[2]>>)
PutNat(st, n, t) == LET u == PutU(st, n)
                        d == PutU(u[1], PrintDesc(t)) IN Put(d[1], <<12, u[2], d[2]>>)
PutM(st, m) == LET o == PutNamed(st, 7, m[2])
                   nt == PutNat(o[1], m[3], m[4]) IN
               Put(nt[1], <<IF ~IsMethodType(m[4]) THEN 9 ELSE IF m[5] = 1 THEN 11 ELSE 10, o[2], nt[2]>>)
PutH(st, h) == LET m == PutM(st, h[3]) IN Put(m[1], <<15, h[2], m[2]>>)
PutB(st, b) == IF \E i \in 1..Len(st[2]) : st[2][i] = b THEN <<st, (CHOOSE i \in 1..Len(st[2]) : st[2][i] = b) - 1>>
               ELSE <<<<st[1], Append(st[2], b)>>, Len(st[2])>>
Insert(st, given) ==
  LET op == Canon(given) IN
  CASE op[1] = "utf8" -> PutU(st, op[2])
    [] op[1] = "int" -> Put(st, <<3, op[2]>>)
    [] op[1] = "float" -> Put(st, <<4, op[2]>>)
    [] op[1] = "long" -> Put(st, <<5, op[2]>>)
    [] op[1] = "double" -> Put(st, <<6, op[2]>>)
    [] op[1] = "class" -> PutNamed(st, 7, op[2])
    [] op[1] = "string" -> PutNamed(st, 8, op[2])
    [] op[1] = "module" -> PutNamed(st, 19, op[2])
    [] op[1] = "package" -> PutNamed(st, 20, op[2])
    [] op[1] = "nat" -> PutNat(st, op[2], op[3])
    [] op[1] = "m" -> PutM(st, op)
    [] op[1] = "h" -> PutH(st, op)
    [] op[1] = "mtype" -> LET u == PutU(st, PrintDesc(op[2])) IN Put(u[1], <<16, u[2]>>)
    [] op[1] = "bsm" -> PutB(st, op[2])
    [] op[1] = "dyn" -> LET b == PutB(st, op[2])
                            nt == PutNat(b[1], op[3], op[4]) IN
                        Put(nt[1], <<IF IsMethodType(op[4]) THEN 18 ELSE 17, b[2], nt[2]>>)
    [] op[1] = "raw" -> Put(st, Tail(op))
Init == pool = <<>> /\ bsms = <<>> /\ hist = <<>> /\ idx = <<>>
Next == /\ Len(hist) < Depth_
        /\ \E n \in Ops :
             LET r == Insert(<<pool, bsms>>, OpAt(n)) IN
             pool' = r[1][1] /\ bsms' = r[1][2] /\ hist' = Append(hist, n) /\ idx' = Append(idx, r[2])
History == [i \in 1..Len(hist) |-> OpAt(hist[i])]
(* Indices handed out stay good whatever is inserted later.                     *)
Denoting == GoodHistory(History, idx, pool)
Grows == [][Len(pool') >= Len(pool) /\ SubSeq(pool', 1, Len(pool)) = pool]_vars
Emit == Len(hist) < Depth_ \/ PrintT("CASE " \o ToJson(<<"history", History>>))
=============================================================================
