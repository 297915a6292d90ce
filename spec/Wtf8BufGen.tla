----------------------------- MODULE Wtf8BufGen -----------------------------
(* Single transitions of the string machine swept over a whole range: every   *)
(* lead and every trail surrogate meeting a boundary partner, every pair of   *)
(* ASCII characters compared without case, code points all over the range.    *)
EXTENDS Wtf8Buf, Json, TLC
VARIABLE k

Leads == <<55296, 55297, 55807, 55808, 56318, 56319>>
Trails == <<56320, 56321, 56831, 56832, 57342, 57343>>
Case(s, op, a) == LET p == Post(s, op, a) IN <<<<s, op, a, p.r, p.s>>, Obs(p.s)>>
Map(s, f(_)) == [i \in 1..Len(s) |-> f(s[i])]
RECURSIVE Flat(_, _)
Flat(ss, i) == IF i > Len(ss) THEN <<>> ELSE ss[i] \o Flat(ss, i + 1)
Meet(l, t) == << Case(<<l>>, "push", <<t>>), Case(<<65, l>>, "push_wtf8", <<t>>), Case(<<l>>, "push_wtf8", <<t, 233>>), Case(<<>>, "from_wide", <<l, t, l>>),
                 Case(<<l>>, "extend", <<t>>), Case(<<l, l>>, "extend", <<t, t>>), Case(<<t>>, "push_wtf8", <<l>>) >>
Near(c) == LET s == <<c>> IN
           << Case(<<>>, "push", s), Case(<<97>>, "push_wtf8", s), Case(s, "push", <<56320>>), Case(<<55296>>, "push", s), Case(s, "cmp", <<c + 1>>), Case(<<c + 1, 66>>, "cmp", s),
              Case(s, "slice_from", <<1>>), Case(s, "slice_to", <<2>>), Case(s, "truncate", <<ByteLen(s) - 1>>), Case(s, "upper", <<>>), Case(s, "lower", <<>>), Case(s, "eq_nocase", Join(<<c + 1>>)),
              Case(s, "eq_nocase", <<IF c >= 32 THEN c - 32 ELSE c>>) >>
(* The k-th group of cases.                                                   *)
Group ==
  CASE k < 1024 -> Flat(Map(Trails, LAMBDA t : Meet(55296 + k, t)), 1)
    [] k < 2048 -> Flat(Map(Leads, LAMBDA l : Meet(l, 56320 + k - 1024)), 1)
    [] k < 2176 -> LET a == k - 2048 IN [b \in 1..128 |-> Case(<<a>>, "eq_nocase", <<b - 1>>)] \o Near(a)
    [] OTHER    -> Near(LET n == k - 2176 IN IF n < 2048 THEN n * 32 + (n % 32) ELSE 65536 + (n - 2048) * 1023)
Last == 2176 + 2048 + 1024
Init == k = 0
Next == k < Last /\ k' = k + 1
Spec == Init /\ [][Next]_k
(* Whatever meets, the string stays well formed and no code unit is lost.     *)
RECURSIVE Units(_, _)
Units(s, i) == IF i > Len(s) THEN <<>> ELSE Utf16(<<s[i]>>) \o Units(s, i + 1)
Kept == k < 2048 => LET g == Group IN \A i \in 1..Len(g) : LET c == g[i][1] IN
           /\ WellFormed(EncW(c[5]))
           /\ c[2] # "from_wide" => Utf16(c[5]) = Units(c[1], 1) \o Units(c[3], 1)
Emit == LET g == Group IN \A i \in 1..Len(g) : PrintT("CASE " \o ToJson(g[i]))
=============================================================================
