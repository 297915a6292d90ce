------------------------------ MODULE GenAttrs ------------------------------
(***************************************************************************)
(* Every known attribute in every position with every alternative of its      *)
(* format; framing variations (wrong lengths, repeated, several, unknown and   *)
(* misplaced names).                                                            *)
(***************************************************************************)
EXTENDS Gen, Json
CONSTANTS Kinds      \* "content", "framing", or of the content only "plain", "annotations", "debug"
AnnNames == {"RuntimeVisibleAnnotations", "RuntimeInvisibleAnnotations", "RuntimeVisibleTypeAnnotations", "RuntimeInvisibleTypeAnnotations",
             "RuntimeVisibleParameterAnnotations", "RuntimeInvisibleParameterAnnotations", "AnnotationDefault"}
DebugNames == {"LineNumberTable", "LocalVariableTable", "LocalVariableTypeTable", "StackMapTable"}
Wanted(n) == CASE Kinds = "plain" -> n \notin AnnNames \cup DebugNames
               [] Kinds = "annotations" -> n \in AnnNames
               [] Kinds = "debug" -> n \in DebugNames
               [] OTHER -> TRUE
Content == Cat([p \in 1..4 |-> LET pos == Positions[p] IN
             Cat([a \in 1..Len(pos[2]) |-> LET e == pos[2][a]
                                               bs == IF Wanted(e[2]) THEN Alts(e[3]) ELSE <<>> IN
                  [i \in 1..Len(bs) |-> <<pos[1] \o " " \o e[2], InPos(pos[1], <<Attr(e[2], bs[i])>>)>>]])])
(* Length fields that disagree, neighbours, unknown names.                      *)
Raw1(k, body) == K(k) \o B4(Len(body)) \o body
AttrLen(k, n, body) == K(k) \o n \o body
UnknownNames == <<"Foo", "x", "Synthetic2", "odd", "">>
Misplaced(pos) == SelectSeq([i \in 1..Len(NameTable) |-> NameTable[i][1]], LAMBDA n : ~\E i \in 1..Len(pos[2]) : pos[2][i][2] = n)
Framing == Cat([p \in 1..4 |-> LET pos == Positions[p]
                                   P(as) == InPos(pos[1], as) IN
   Cat([a \in 1..Len(pos[2]) |->
     LET e == pos[2][a]
         body == Alts(e[3])[1]
         n == Len(body)
         foo == Attr("Foo", <<1, 2, 3>>)
         bar == Attr("Synthetic2", <<>>) IN
     Map(<< <<Attr(e[2], body)>>, <<Attr(e[2], body \o <<0>>)>>, <<Attr(e[2], body \o <<0, 0>>), foo>>,
            <<AttrLen(e[2], B4(n + 1), body), foo>>, <<AttrLen(e[2], B4(n + 1), body)>>, <<AttrLen(e[2], B4(n + 9), body), foo>>,
            <<AttrLen(e[2], <<255, 255, 255, 255>>, body)>>, <<AttrLen(e[2], <<127, 255, 255, 255>>, body), foo>>,
            <<foo, Attr(e[2], body), bar, foo>>, <<Attr(e[2], body), foo, Attr("Deprecated", <<>>)>>, <<Attr(e[2], body), Attr(e[2], body)>>,
            <<foo, Attr(e[2], body), Attr("Foo", <<9>>)>> >>
          \o (IF n = 0 THEN <<>> ELSE << <<AttrLen(e[2], B4(n - 1), body), foo>>, <<Attr(e[2], SubSeq(body, 1, n - 1))>>, <<AttrLen(e[2], B4(0), body), foo>>,
                                          <<AttrLen(e[2], B4(n - 1), body)>>, <<Attr(e[2], SubSeq(body, 1, n - 1)), foo>> >>),
          LAMBDA as : <<pos[1] \o " " \o e[2] \o " framing", P(as)>>)])
   \o Map(UnknownNames, LAMBDA k : <<pos[1] \o " unknown", P(<<Attr(k, <<0, 1, 255, 0>>), Attr(k, <<>>), Attr(k, <<7>>)>>)>>)
   \o Map(Misplaced(pos), LAMBDA k : <<pos[1] \o " misplaced " \o k, P(<<Attr(k, <<0, 1, 0, 2>>), Attr(k, <<>>)>>)>>)
   \o Map(<<"cA", "int", "ntV">>, LAMBDA k : <<pos[1] \o " badname", P(<<Attr(k, <<>>)>>)>>)])
Cases == TLCEval(IF Kinds = "framing" THEN Framing ELSE Content)
VARIABLE i
Init == Setup(Cases) /\ i = 0
Next == i < NCases /\ i' = i + 1
Emit == i = 0 \/ PrintT("CASE " \o ToJson(Case(i)))
=============================================================================
