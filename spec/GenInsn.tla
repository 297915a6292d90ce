------------------------------- MODULE GenInsn -------------------------------
(***************************************************************************)
(* One instruction at a time: every opcode (defined or not), every wide form, *)
(* boundary operands, every pool index in every index operand, truncations,    *)
(* branch and switch targets on, between and outside instructions, switches     *)
(* at every alignment.                                                          *)
(***************************************************************************)
EXTENDS Gen, Json
CONSTANTS Part            \* "plain", "index", "jump"
Seq0(n) == [i \in 1..n |-> 0]
Upto(a, b) == [i \in 1..(b - a + 1) |-> a + i - 1]
One(s) == Map(s, LAMBDA x : <<x>>)
Bytes1 == <<0, 1, 2, 3, 4, 5, 6, 126, 127, 128, 129, 250, 251, 252, 253, 254, 255>>
Words == <<0, 1, 3, 4, 127, 128, 250, 255, 256, 257, 32767, 32768, 65279, 65280, 65407, 65408, 65530, 65531, 65534, 65535>>
Cross(as, bs) == Cat(Map(as, LAMBDA a : Map(bs, LAMBDA b : a \o b)))
Pre(op, xs) == Map(xs, LAMBDA x : <<op>> \o x)
Few == <<0, 1, 3, 4, 255>>
AllIx == IF AllIndices THEN [i \in 1..(PoolCount + 2) |-> i - 1] \o <<65535>>
         ELSE Map(SomeKeys, LAMBDA k : Ix[k]) \o Map(<<"mth", "imt", "dynJ", "dynBad", "cI", "cAA", "flt", "dbl", "hdi", "cB">>, LAMBDA k : Ix[k])
              \o <<0, PoolCount, Ix["lng"] + 1, 65535>>
IndexOps == <<19, 20, 178, 179, 180, 181, 182, 183, 184, 187, 189, 192, 193>>
Ops(S) == SetSeq(S)
Insns ==
  CASE Part = "plain" ->
       One(Ops(0..255))                                                     \* bare, also truncated ones
       \o Cat(Map(Ops({16} \cup 21..25 \cup 54..58 \cup {169, 188}), LAMBDA op : Pre(op, One(Bytes1))))
       \o Pre(188, One(Upto(0, 16)))
       \o Pre(17, Nums2(Words)) \o << <<17, 5>> >>
       \o Pre(132, Cross(One(Few), One(Bytes1))) \o << <<132, 1>> >>
       \o Cat(Map(Ops(0..255), LAMBDA op : << <<196, op, 1, 0>> >>))
       \o Cat(Map(Ops(21..25 \cup 54..58 \cup {169}), LAMBDA op : Pre(196, Pre(op, Nums2(Words)))))
       \o Pre(196, Pre(132, Cross(Nums2(<<0, 255, 256, 65535>>), Nums2(Words))))
       \o << <<196>>, <<196, 21>>, <<196, 21, 1>>, <<196, 132, 0, 1>>, <<196, 132, 0, 1, 0>>, <<196, 132, 0, 1, 0, 7>> >>
    [] Part = "index" ->
       Cat(Map(IndexOps, LAMBDA op : Pre(op, Nums2(AllIx)) \o << <<op, 0>> >>))
       \o Pre(18, One(SelectSeq(AllIx, LAMBDA x : x < 256)))
       \o Cross(Pre(185, Nums2(AllIx)), << <<1, 0>> >>) \o Cross(Pre(185, <<K("imt")>>), Cross(One(Bytes1), << <<0>>, <<1>> >>))
       \o Cross(Pre(186, Nums2(AllIx)), << <<0, 0>> >>) \o Cross(Pre(186, <<K("ind")>>), << <<0>>, <<0, 1>>, <<1, 0>> >>)
       \o Cross(Pre(197, Nums2(AllIx)), <<<<1>>>>) \o Cross(Pre(197, Keys(<<"cA", "cI", "cAA", "int", "dynI">>)), One(<<0, 1, 2, 3, 4, 255>>))
       \o << <<185, 0, 1>>, <<185, 0, 1, 1>>, <<197, 0>> \o K("cA") >>
Before == << <<>>, <<0>>, <<87, 0>>, <<0, 0, 87>> >>
Plain == LET w == Insns IN
   Cat([i \in 1..Len(w) |-> << <<"insn", WithCode(<<0>> \o w[i] \o <<177>>)>> >>
        \o (IF Part = "plain" /\ Len(w[i]) <= 2 THEN << <<"insn last", WithCode(<<177>> \o w[i])>> >> ELSE <<>>)])

(* Branches: at pc in a body  <before> <branch> sipush 1 2; nop; return          *)
Rel(n) == IF n < 0 THEN B2(65536 + n) ELSE B2(n)
Offs == <<-32768, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 32767>>
Offs4 == Map(Offs, B4) \o << B4(2147483647), B4(-2147483647 - 1), B4(65536), B4(-65536), B4(65540) >>
Rest == <<17, 1, 2, 0, 177>>
Branches == Cat(Map(Ops(153..168 \cup {198, 199}), LAMBDA op : Cat(Map(<<Before[1], Before[3], Before[4]>>, LAMBDA b :
              Map(Offs, LAMBDA o : <<"branch", WithCode(b \o <<op>> \o Rel(o) \o Rest)>>)))))
            \o Cat(Map(<<200, 201>>, LAMBDA op : Cat(Map(<<Before[1], Before[3], Before[4]>>, LAMBDA b :
              Map(Offs4, LAMBDA o : <<"branch_w", WithCode(b \o <<op>> \o o \o Rest)>>)))))
            \o << <<"branch cut", WithCode(<<0, 167, 0>>)>>, <<"branch cut", WithCode(<<0, 200, 0, 0, 0>>)>>, <<"branch cut", WithCode(<<0, 200, 0, 0, 0, 5>>)>> >>
(* Switches.  The instruction after the switch is sipush 1 2; nop; return.        *)
Pad(pc) == Seq0((3 - (pc % 4)) % 4)
PadJunk(pc) == [i \in 1..((3 - (pc % 4)) % 4) |-> 170]
Min == -2147483647 - 1
Max == 2147483647
SwLen(pc, n, k) == Len(Pad(pc)) + 1 + n + k      \* length of the switch: n fixed bytes, k bytes of table
TSwitch(b, low, high, arms, extra) ==             \* arms: offsets relative to the end of the switch
  LET pc == Len(b)
      len == SwLen(pc, 12, 4 * Len(arms)) IN
  b \o <<170>> \o extra \o B4(len) \o B4(low) \o B4(high) \o Cat(Map(arms, LAMBDA a : B4(len + a))) \o Rest
LSwitch(b, n, pairs, extra) ==
  LET pc == Len(b)
      len == SwLen(pc, 8, 8 * Len(pairs)) IN
  b \o <<171>> \o extra \o B4(len) \o B4(n) \o Cat(Map(pairs, LAMBDA p : B4(p[1]) \o B4(len + p[2]))) \o Rest
Ranges == << <<0, 0, <<0>>>>, <<-1, 1, <<0, 3, 4>>>>, <<5, 6, <<4, 0>>>>, <<Min, Min, <<3>>>>, <<Min, Min + 1, <<3, 4>>>>, <<Max, Max, <<4>>>>, <<Max - 1, Max, <<4, 0>>>>,
             <<1, 0, <<>>>>, <<1, 0, <<0>>>>, <<0, 1, <<0>>>>, <<0, 0, <<0, 3>>>>, <<Min, Max, <<0>>>>, <<Max, Min, <<>>>>, <<0, 65536, <<0>>>>, <<-1, Max, <<0>>>>,
             <<0, 0, <<1>>>>, <<0, 1, <<0, 2>>>>, <<0, 0, <<5>>>>, <<0, 0, <<6>>>>, <<0, 0, <<-100>>>>, <<0, 0, <<Max - 1000>>>> >>
PairSets == << <<1, << <<0, 0>> >>>>, <<2, << <<-1, 0>>, <<1, 3>> >>>>, <<3, << <<Min, 0>>, <<0, 4>>, <<Max, 3>> >>>>, <<0, <<>>>>, <<2, << <<1, 0>>, <<0, 3>> >>>>, <<2, << <<1, 0>>, <<1, 3>> >>>>,
               <<2, << <<1, 0>> >>>>, <<-1, <<>>>>, <<Max, << <<0, 0>> >>>>, <<1, << <<0, 1>> >>>>, <<1, << <<0, 5>> >>>>, <<1, << <<7, 6>> >>>>, <<1, << <<7, -100>> >>>>, <<1, << <<0, 0>>, <<1, 0>> >>>> >>
Switches == Cat(Map(Before, LAMBDA b :
     Map(Ranges, LAMBDA r : <<"tableswitch", WithCode(TSwitch(b, r[1], r[2], r[3], Pad(Len(b))))>>)
     \o Map(PairSets, LAMBDA r : <<"lookupswitch", WithCode(LSwitch(b, r[1], r[2], Pad(Len(b))))>>)
     \o << <<"tableswitch", WithCode(TSwitch(b, 0, 0, <<0>>, PadJunk(Len(b))))>>,
           <<"switch cut", WithCode(b \o <<170>>)>>, <<"switch cut", WithCode(b \o <<171>> \o Pad(Len(b)) \o B4(0))>>,
           <<"switch cut", WithCode(b \o <<170>> \o Pad(Len(b)) \o B4(0) \o B4(0) \o B4(0))>> >>))
Cases == TLCEval(IF Part = "jump" THEN Branches \o Switches ELSE Plain)
VARIABLE i
Init == Setup(<<>>) /\ Setup(Cases) /\ i = 0
Next == i < NCases /\ i' = i + 1
Emit == i = 0 \/ PrintT("CASE " \o ToJson(Case(i)))
=============================================================================
