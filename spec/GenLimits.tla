------------------------------ MODULE GenLimits ------------------------------
(* Enumerates the cases of Limits.                                            *)
EXTENDS Limits, Json
CONSTANTS Part      \* "lists", "small", "texts", "slots", "table": cases of Limits; "code", "sizes": classes
CountCases(ns) == Joined(Map(ns, ListCases))
(* Lists of at most 255 items, around that.                                   *)
SmallLists == CountCases(<<1, 254, 255, 256, 257, 511, 512, 600>>)
(* -- code that cannot be written, next to code that can ------------------------- *)
Ret == <<"return", "V">>
Max == 2147483647
Lows == <<-Max - 1, -Max, -1, 0, 1, Max - 3, Max - 2, Max - 1, Max>>
Switches == Pairs(Lows, Upto(0, 4), LAMBDA low, k : C0(<< <<"tableswitch", 0, low, [j \in 1..k |-> j % 2]>>, Ret>>))
            \o Pairs(Lows, Upto(0, 4), LAMBDA low, k : C0(<< <<"lookupswitch", 1, [j \in 1..k |-> <<IF low < 0 THEN low + j ELSE low - 4 + j, j % 2>>]>>, Ret>>))
Three == C0(<< <<"dup">>, <<"pop">>, Ret>>)
Spans2 == Pairs(Upto(0, 3), Upto(0, 3), LAMBDA a, b : <<a, b>>)
Ranges == Map(Spans2, LAMBDA x : [Three EXCEPT !.vars = << <<x[1], x[2], X, <<Ii>>, 0, <<>>>> >>])
          \o Map(Spans2, LAMBDA x : [Three EXCEPT !.vars = << <<x[1], x[2], X, <<>>, 0, << <<"T", X>> >>>> >>])
          \o Map(Spans2, LAMBDA x : [Three EXCEPT !.vars = << <<0, 0, A, <<Ii>>, 0, <<>>>>, <<x[1], x[2], X, <<Ii>>, 0, << <<"T", X>> >>>> >>])
          \o Pairs(Spans2, <<"var", "resource">>, LAMBDA x, k : [Three EXCEPT !.attrs = << <<"RuntimeVisibleTypeAnnotations", <<TAnn(<<k, << <<x[1], x[2], 1>> >>>>, <<>>)>>>> >>])
          \o Map(Spans2, LAMBDA x : [Three EXCEPT !.attrs = << <<"RuntimeInvisibleTypeAnnotations", <<TAnn(<<"var", << <<0, 3, 0>>, <<x[1], x[2], 1>> >>>>, <<>>)>>>> >>])
(* For more than one dimension, the type is that of the whole array.             *)
ArrayOf(t, d) == <<"newarray", IF d < 2 THEN t ELSE <<"[", d, t>>, d>>
Arrays == Pairs(<<La, Ii, <<"D">>>>, Upto(0, 255), LAMBDA t, d : C0(<<ArrayOf(t, d), Ret>>)) \o Pairs(<<La, Ii>>, Upto(2, 254), LAMBDA t, d : C0(<< <<"newarray", <<"[", 255, t>>, d>>, Ret>>))
(* Code of about 65535 bytes with something at its end, or start.                *)
Lasts == << <<"push", I0>>, <<"push", <<"int", <<0, 0, 1, 0>>>>>>, <<"push", <<"long", <<0, 0, 0, 0, 0, 0, 1, 0>>>>>>, <<"iinc", 300, 5>>, <<"load", "I", 300>>, <<"load", "A", 2>>, <<"checkcast", La>>,
            <<"if", "always", 0>>, <<"if", "eq", 0>>, <<"if", "null", 1>>, <<"jsr", 0>>, <<"tableswitch", 0, 0, <<0, 1>>>>, <<"lookupswitch", 0, << <<5, 0>> >>>>, ArrayOf(La, 2),
            <<"invokedynamic", <<"dyn", <<H0, <<>>>>, X, V0>>>> >>
Sized(ops, k) == [C0(ops) EXCEPT !.n = Len(ops) - 1 + k]
Sizes == Pairs(Lasts, Upto(65505, 65536), LAMBDA x, k : Sized(<< <<"nops", k>>, x, Ret>>, k))
         \o Pairs(Lasts, <<32760, 65500, 65520, 65526, 65530, 65532, 65534, 65535>>, LAMBDA x, k : Sized(<<x, <<"nops", k>>, Ret>>, k))
Cases == TLCEval(CASE Part = "lists" -> CountCases(<<65535, 65536, 65537>>)
                   [] Part = "small" -> SmallLists
                   [] Part = "texts" -> Joined(Map(Chars, TextCases))
                   [] Part = "slots" -> Joined(Map(Upto(65521, 65536), LAMBDA n : SelectSeq(SlotCases(n), LAMBDA x : x[1] \in {"slots: ints", "slots: strings", "slots: field names", "slots: element names"})))
                                        \o Joined(Map(Upto(32757, 32768), LAMBDA n : SelectSeq(SlotCases(n), LAMBDA x : x[1] \in {"slots: longs", "slots: classes"})))
                                        \o Joined(Map(<<100, 32000, 66000>>, SlotCases))
                   [] Part = "code" -> Map(Switches \o Ranges \o Arrays, LAMBDA c : <<Part, InK(c)>>)
                   [] Part = "sizes" -> Map(Sizes, LAMBDA c : <<Part, InK(c)>>)
                   [] Part = "table" -> TableCases)
VARIABLE i
Init == TLCSet(13, Cases) /\ i = 0
Next == i < Len(TLCGet(13)) /\ i' = i + 1
Emit == i = 0 \/ PrintT("CASE " \o ToJson(TLCGet(13)[i]))
=============================================================================
