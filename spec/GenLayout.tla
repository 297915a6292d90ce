------------------------------ MODULE GenLayout ------------------------------
(***************************************************************************)
(* Method bodies, given as classes of the specification, which the harness    *)
(* builds and the code writes: branches, switches, handlers, lines and         *)
(* variables around every size and alignment boundary.                          *)
(*                                                                              *)
(* A layout is a sequence of items: <<"nops", k>>, <<"M", m>> (the mark m is     *)
(* placed here), and operations whose targets are marks; mark 0 is never placed. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Part,      \* "far", "pair", "switch", "cascade", "unplaced"
          Wide       \* full windows around the boundaries

Map(s, f(_)) == TLCEval([i \in 1..Len(s) |-> f(s[i])])
Concat(ss) == IF ss = <<>> THEN <<>>
              ELSE LET flat[i \in 1..Len(ss)] == IF i = 1 THEN ss[1] ELSE flat[i - 1] \o ss[i] IN flat[Len(ss)]
Upto(a, b) == [i \in 1..(b - a + 1) |-> a + i - 1]
For(s, f(_)) == Concat(Map(s, f))

---------------------------------------------------------------------------
(* From layout to code.                                                       *)
Count(x) == CASE x[1] = "nops" -> x[2] [] x[1] = "M" -> 0 [] OTHER -> 1
RECURSIVE Places(_, _, _, _)
Places(L, i, n, acc) ==          \* mark -> instruction index
  IF i > Len(L) THEN acc
  ELSE Places(L, i + 1, n + Count(L[i]), IF L[i][1] = "M" THEN acc @@ (L[i][2] :> n) ELSE acc)
RECURSIVE Ops(_, _, _, _)
Ops(L, P, i, acc) ==
  IF i > Len(L) THEN acc
  ELSE LET x == L[i]
           At(m) == IF m \in DOMAIN P THEN P[m] ELSE -1
           n == Len(acc) IN
       CASE x[1] = "M" -> Ops(L, P, i + 1, acc)
         [] x[1] = "nops" -> IF x[2] = 0 THEN Ops(L, P, i + 1, acc)
                             ELSE IF n > 0 /\ acc[n][1] = "nops" THEN Ops(L, P, i + 1, [acc EXCEPT ![n] = <<"nops", @[2] + x[2]>>])
                             ELSE Ops(L, P, i + 1, Append(acc, x))
         [] x[1] = "if" -> Ops(L, P, i + 1, Append(acc, <<"if", x[2], At(x[3])>>))
         [] x[1] = "jsr" -> Ops(L, P, i + 1, Append(acc, <<"jsr", At(x[2])>>))
         [] x[1] = "tableswitch" -> Ops(L, P, i + 1, Append(acc, <<"tableswitch", At(x[2]), x[3], [k \in 1..Len(x[4]) |-> At(x[4][k])]>>))
         [] x[1] = "lookupswitch" -> Ops(L, P, i + 1, Append(acc, <<"lookupswitch", At(x[2]), [k \in 1..Len(x[3]) |-> <<x[3][k][1], At(x[3][k][2])>>]>>))
         [] OTHER -> Ops(L, P, i + 1, Append(acc, x))
A == <<65>>
RefA == <<"L", A>>
MthV == <<"(", <<>>, <<>>>>
WithCode(K) == [minor |-> 0, major |-> 52, access |-> 33, name |-> A, super |-> <<A>>, ifaces |-> <<>>, fields |-> <<>>,
                methods |-> << <<9, <<109>>, MthV, << <<"Code", K>> >>>> >>, attrs |-> <<>>]
(* cs: catches as marks; ls: marks with a line; vs: pairs of marks with a      *)
(* variable; as: type-annotation targets                                       *)
Body(L, cs, ls, vs, as) ==
  LET P == TLCEval(Places(L, 1, 0, <<>>))
      At(m) == IF m \in DOMAIN P THEN P[m] ELSE -1
      n == Concat(Map(L, LAMBDA x : IF Count(x) = 0 THEN <<>> ELSE <<Count(x)>>))
      total == LET sum[i \in 0..Len(n)] == IF i = 0 THEN 0 ELSE sum[i - 1] + n[i] IN sum[Len(n)]
      lines == SortSeq(Map(ls, LAMBDA m : <<At(m), 100 + m>>), LAMBDA x, y : x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2]))
      vars == SortSeq([i \in 1..Len(vs) |-> <<At(vs[i][1]), At(vs[i][2]), A, << <<"I">> >>, i, <<>>>>],
                      LAMBDA x, y : IF x[1] # y[1] THEN x[1] < y[1] ELSE IF x[2] # y[2] THEN x[2] < y[2] ELSE x[5] < y[5]) IN
  WithCode([stack |-> 1, locals |-> 2, n |-> total, ops |-> Ops(L, P, 1, <<>>),
            catches |-> Map(cs, LAMBDA c : <<At(c[1]), At(c[2]), At(c[3]), IF c[1] = c[3] THEN <<>> ELSE <<A>>>>),
            lines |-> lines, vars |-> vars,
            attrs |-> IF as = <<>> THEN <<>>
                      ELSE << <<"RuntimeVisibleTypeAnnotations",
                                Map(as, LAMBDA t : << (CASE t[1] \in {"var", "resource"} -> <<t[1], << <<At(t[2]), At(t[3]), 7>> >>>>
                                                         [] t[1] = "catch" -> <<"catch", <<At(t[2]), At(t[3]), At(t[4]), <<A>>>>>>
                                                         [] t[1] \in {"cast", "gnew", "gmethod", "gnewref", "gmethodref"} -> <<t[1], At(t[2]), 3>>
                                                         [] OTHER -> <<t[1], At(t[2])>>),
                                                      <<>>, <<RefA, <<>>>> >>)>> >>])
Ret == <<"return", "V">>
M(i) == <<"M", i>>
Nops(k) == <<"nops", k>>

---------------------------------------------------------------------------
Conds == <<"always", "acmpeq", "acmpne", "icmpeq", "icmpne", "icmplt", "icmpgt", "icmple", "icmpge", "eq", "ne", "lt", "gt", "le", "ge", "null", "nonnull">>
Jumps(m) == Map(Conds, LAMBDA c : <<"if", c, m>>) \o << <<"jsr", m>> >>
SomeJumps(m) == << <<"if", "always", m>>, <<"if", "eq", m>>, <<"jsr", m>> >>
Win(a, b, few) == IF Wide THEN Upto(a, b) ELSE few
(* One jump; the distance is what the short form can just hold, or not.         *)
Far ==
  For(Upto(1, 18), LAMBDA j :
    For(<<0, 1, 2>> \o Win(32755, 32775, <<32759, 32763, 32764, 32765, 32768>>) \o <<60000>>, LAMBDA k :
      << <<"forward", Body(<<Nops(1), M(2), Jumps(1)[j], M(3), Nops(k), M(1), Ret>>, << <<2, 3, 1>> >>, <<1, 2, 3>>, << <<2, 1>>, <<3, 1>> >>, <<>>)>> >>)
    \o For(<<0, 1, 2>> \o Win(32755, 32775, <<32764, 32767, 32768, 32769, 32772>>) \o <<60000>>, LAMBDA k :
      << <<"backward", Body(<<Nops(1), M(1), Nops(k), M(2), Jumps(1)[j], M(3), Ret>>, << <<1, 2, 3>>, <<1, 3, 1>> >>, <<1, 2, 3>>, << <<1, 3>>, <<2, 3>> >>, <<>>)>> >>))

(* A jump over, or back over, something whose size depends on the layout.        *)
Pairs3(m) == << <<-5, m>>, <<0, 1>>, <<2147483647, m>> >>
Inner(m) == SomeJumps(m) \o << <<"tableswitch", m, 0, <<m>>>>, <<"tableswitch", m, -1, <<m, 1, m>>>>, <<"lookupswitch", m, <<>>>>,
            <<"lookupswitch", 1, << <<3, m>> >>>>, <<"lookupswitch", m, Pairs3(m)>>, <<"iinc", 300, 1>>, <<"ret", 256>>, <<"load", "I", 255>>, <<"store", "D", 256>> >>
Size(x) == CASE x[1] = "tableswitch" -> 13 + 4 * Len(x[4]) [] x[1] = "lookupswitch" -> 9 + 8 * Len(x[3]) [] x[1] \in {"if", "jsr"} -> 3
             [] x[1] = "iinc" -> 6 [] x[1] = "ret" -> 4 [] x[2] = "I" -> 2 [] OTHER -> 4
Deltas == Win(-12, 12, <<-8, -6, -5, -4, -3, -2, -1, 0, 1, 2, 3>>)
Pair ==
  For(Win(0, 3, <<0, 1, 2, 3>>), LAMBDA p :
  For(IF Wide THEN <<1, 2, 3>> ELSE <<1, 2>>, LAMBDA j :
  For(Upto(1, Len(Inner(1))), LAMBDA x :
  For(Deltas, LAMBDA d :
    LET s == Size(Inner(1)[x])
        k == 32767 - 3 - s + d
        a == IF d % 2 = 0 THEN 5 + p ELSE k \div 2 + 1
        far == 100 + 26000 * (x % 2) IN
    << <<"over forward", Body(<<Nops(p), M(2), SomeJumps(1)[j], Nops(a), M(3), Inner(4)[x], M(5), Nops(k - a), M(1), Nops(far), M(4), Ret>>,
                             << <<3, 5, 1>> >>, <<5, 1>>, << <<3, 1>> >>, <<>>)>>,
       <<"over backward", Body(<<Nops(p), M(1), Nops(a), M(3), Inner(4)[x], M(5), Nops(32768 - s - a + d), M(2), SomeJumps(1)[j], Nops(far), M(4), Ret>>,
                             << <<1, 5, 2>> >>, <<2, 4>>, << <<5, 4>> >>, <<>>)>> >>))))

(* Switches at every alignment, behind short, wide and inverted jumps.            *)
Many(n, f(_)) == [i \in 1..n |-> f(i)]
Min == -2147483647 - 1
Max == 2147483647
Sw(i) == << <<"tableswitch", 1, 0, <<2>>>>, <<"tableswitch", 2, Min, <<3, 1>>>>, <<"tableswitch", 3, Max - 2, <<1, 2, 3>>>>, <<"tableswitch", 1, Max, <<2>>>>,
            <<"tableswitch", 1, -1, Many(300, LAMBDA n : 1 + (n % 3))>>,
            <<"lookupswitch", 1, <<>>>>, <<"lookupswitch", 2, << <<0, 3>> >>>>, <<"lookupswitch", 3, << <<Min, 1>>, <<-1, 2>>, <<0, 3>>, <<7, 1>>, <<Max, 2>> >>>>,
            <<"lookupswitch", 2, Many(200, LAMBDA n : <<7 * n - 700, 1 + (n % 3)>>)>>,
            (* refused *) <<"tableswitch", 1, 0, <<>>>>, <<"tableswitch", 1, Max, <<2, 3>>>>, <<"tableswitch", 1, Max - 1, <<2, 3, 1>>>>, <<"tableswitch", 1, Min, <<>>>> >>[i]
Switches ==
  For(Upto(0, 4), LAMBDA p :
  For(Upto(1, 13), LAMBDA i :
    << <<"switch", Body(<<Nops(p), M(1), Sw(i), M(2), Nops(3), M(3), Ret>>, << <<1, 2, 3>> >>, <<1, 2, 3>>, << <<1, 3>> >>, <<>>)>>,
       <<"switch far", Body(<<M(1), Nops(40000 + p), Sw(i), M(2), Nops(20000), M(3), Ret>>, << <<1, 2, 3>> >>, <<2, 3>>, << <<2, 3>> >>, <<>>)>>,
       <<"switch behind jumps", Body(<<Nops(p), <<"if", "null", 3>>, M(1), <<"if", "always", 2>>, Sw(i), Nops(33000), M(2), <<"if", "ge", 1>>, Sw(i), M(3), Nops(2), Ret>>,
                                     << <<1, 2, 3>> >>, <<2, 3>>, << <<2, 3>> >>, <<>>)>>,
       <<"two switches", Body(<<Nops(p), M(1), Sw(i), M(2), Nops(i % 5), Sw((i % 9) + 1), Nops(1), M(3), Ret>>, << <<1, 2, 3>> >>, <<2, 3>>, << <<2, 3>> >>, <<>>)>> >>))

(* Many jumps in sight of each other's boundary: each that becomes wide moves the others. *)
Cascade ==
  For(<<2, 5, 40>>, LAMBDA n :
  For(Upto(1, 3), LAMBDA j :
  For(Win(-40, 40, <<-20, -9, -3, -1, 0, 1, 2, 4, 8, 15>>), LAMBDA d :
    LET base == 32767 - 3 * n + d
        js(m) == Many(n, LAMBDA i : SomeJumps(m)[1 + ((i + j) % 3)])
        one(m) == Many(n, LAMBDA i : SomeJumps(m)[j]) IN
    << <<"cascade forward", Body(one(1) \o <<M(2), Nops(base), M(1), Ret>>, << <<2, 1, 1>> >>, <<1, 2>>, <<>>, <<>>)>>,
       <<"cascade backward", Body(<<M(1), Nops(base + 2)>> \o one(1) \o <<M(2), Ret>>, << <<1, 2, 1>> >>, <<2>>, <<>>, <<>>)>>,
       <<"cascade both", Body(<<M(2)>> \o js(1) \o <<Nops(base - 2)>> \o js(2) \o <<M(1), Nops(1), Ret>>, << <<2, 1, 1>> >>, <<1, 2>>, <<>>, <<>>)>> >>)))

(* References to a label that was never placed, one at a time.                     *)
Line(x) == <<M(1), Nops(1), x, M(2), Nops(1), M(3), Ret>>
Unplaced ==
  Map(<< Jumps(0)[1], Jumps(0)[2], Jumps(0)[10], <<"jsr", 0>>, <<"tableswitch", 0, 0, <<1>>>>, <<"tableswitch", 1, 0, <<1, 0>>>>, <<"lookupswitch", 0, <<>>>>,
         <<"lookupswitch", 1, << <<1, 1>>, <<2, 0>> >>>> >>, LAMBDA x : <<"unplaced", Body(Line(x), <<>>, <<>>, <<>>, <<>>)>>)
  \o Map(<< <<0, 2, 3>>, <<1, 0, 3>>, <<1, 2, 0>>, <<1, 2, 3>> >>, LAMBDA c : <<"unplaced", Body(Line(Nops(1)), <<c>>, <<>>, <<>>, <<>>)>>)
  \o Map(<< <<0, 2>>, <<1, 0>>, <<2, 1>>, <<3, 1>>, <<1, 3>>, <<3, 3>> >>, LAMBDA v : <<"variable", Body(Line(Nops(1)), <<>>, <<>>, <<v>>, <<>>)>>)
  \o For(<<"instanceof", "new", "newref", "methodref", "cast", "gnew", "gmethod", "gnewref", "gmethodref">>, LAMBDA t :
       Map(<<0, 1, 3>>, LAMBDA m : <<"annotation", Body(Line(Nops(1)), <<>>, <<>>, <<>>, << <<t, m>> >>)>>))
  \o For(<<"var", "resource">>, LAMBDA t :
       Map(<< <<0, 2>>, <<1, 0>>, <<2, 1>>, <<1, 3>>, <<2, 2>> >>, LAMBDA m : <<"annotation", Body(Line(Nops(1)), <<>>, <<>>, <<>>, << <<t, m[1], m[2]>> >>)>>))
  \o Map(<< <<1, 2, 3>>, <<1, 3, 2>>, <<0, 2, 3>> >>, LAMBDA m : <<"annotation", Body(Line(Nops(1)), << <<1, 3, 2>>, <<1, 2, 3>> >>, <<>>, <<>>, << <<"catch", m[1], m[2], m[3]>> >>)>>)
  \o Map(<<65533, 65534, 65535, 65536, 70000>>, LAMBDA k : <<"long", Body(<<M(1), Nops(k), M(2), Ret>>, << <<1, 2, 1>> >>, <<2>>, <<>>, <<>>)>>)
  \o Map(<<65524, 65527, 65529, 65530, 65531, 65532, 65533>>, LAMBDA k : <<"long", Body(<<<<"if", "eq", 2>>, M(1), Nops(k), M(2), Ret>>, << <<1, 2, 1>> >>, <<2>>, <<>>, <<>>)>>)

(* Lines and variables at the edges of long code.                                               *)
Edges == For(<<1, 32766, 32767, 32768, 65531, 65533, 65534>>, LAMBDA k :
  << <<"edge", Body(<<M(1), Nops(k), M(2), Ret, M(3)>>, << <<1, 3, 2>> >>, <<1, 2>>, << <<1, 3>>, <<2, 3>>, <<1, 2>> >>, <<>>)>>,
     <<"edge", Body(<<M(1), Nops(k), M(2), Ret, M(3)>>, <<>>, <<2, 1, 2>>, << <<3, 3>>, <<2, 2>>, <<1, 1>> >>, << <<"var", 1, 3>>, <<"resource", 2, 3>>, <<"gnew", 2>> >>)>> >>)
  \o For(<<32760, 32768, 65520, 65528, 65529>>, LAMBDA k :
  << <<"edge", Body(<<M(1), <<"if", "eq", 2>>, M(4), Nops(k), M(2), Ret, M(3)>>, << <<4, 3, 4>> >>, <<1, 4, 2>>, << <<1, 3>>, <<2, 3>>, <<4, 3>> >>, <<>>)>>,
     <<"edge", Body(<<Nops(k), M(1), <<"if", "always", 2>>, M(4), Nops(1), M(2), Ret, M(3)>>, <<>>, <<1, 4, 2>>, << <<1, 3>>, <<2, 3>>, <<4, 3>> >>, <<>>)>> >>)

Cases == TLCEval(CASE Part = "edges" -> Edges [] Part = "far" -> Far [] Part = "pair" -> Pair [] Part = "switch" -> Switches [] Part = "cascade" -> Cascade [] OTHER -> Unplaced)
VARIABLE i
Init == TLCSet(13, Cases) /\ i = 0
Next == i < Len(TLCGet(13)) /\ i' = i + 1
Emit == i = 0 \/ PrintT("CASE " \o ToJson(TLCGet(13)[i]))
=============================================================================
