------------------------------- MODULE GenDeep -------------------------------
(***************************************************************************)
(* Class files nested very deeply, or with very long parts: whatever is made    *)
(* of them, reading ends.  A file is a sequence of chunks <<times, bytes>>.      *)
(***************************************************************************)
EXTENDS Gen, Json
CONSTANTS Part, Big
N(s) == <<s, <<1, NameCps(s)>>>>
DeepPool == << U("A"), <<"cA", <<7, "A">>>>, U("B/C"), <<"cB", <<7, "B/C">>>>, U("I"), U("()V"), U("x"), U("LA;"), <<"int", <<3, <<0, 0, 0, 1>>>>>>,
               <<"ntI", <<12, "x", "I">>>>, <<"ntV", <<12, "x", "()V">>>>, <<"mth", <<10, "cA", "ntV">>>>, <<"hdl", <<15, 6, "mth">>>>,
               N("Code"), N("AnnotationDefault"), N("RuntimeVisibleAnnotations"), N("RuntimeVisibleTypeAnnotations"), N("Signature"), N("BootstrapMethods"), N("LocalVariableTypeTable"), U("Foo") >>
One(b) == <<1, b>>
(* The file up to the members, with further pool entries.                        *)
HeadWith(count, chunks) == <<One(<<202, 254, 186, 190, 0, 0, 0, 55>> \o B2(PoolCount + count) \o PoolBytes)>> \o chunks \o <<One(B2(33) \o K("cA") \o K("cB") \o B2(0))>>
Nothing == <<One(B2(0))>>
RECURSIVE ChunkSize(_)
ChunkSize(chunks) == IF chunks = <<>> THEN 0 ELSE Head(chunks)[1] * Len(Head(chunks)[2]) + ChunkSize(Tail(chunks))
AttrOf(k, chunks) == <<One(K(k) \o B4(ChunkSize(chunks)))>> \o chunks
ClassAttr(k, chunks) == HeadWith(0, <<>>) \o Nothing \o Nothing \o <<One(B2(1))>> \o AttrOf(k, chunks)
MethodAttr(k, chunks) == HeadWith(0, <<>>) \o Nothing \o <<One(B2(1) \o B2(9) \o K("x") \o K("()V") \o B2(1))>> \o AttrOf(k, chunks) \o Nothing
(* -- annotations in annotations, arrays in arrays --------------------------------- *)
Inner == <<64>> \o K("LA;") \o B2(1) \o K("x")
Leaf == <<73>> \o K("int")
Arr == <<91, 0, 1>>
AnnDeep(n) == << <<n, Inner>>, One(Leaf)>>
ArrDeep(n) == << <<n, Arr>>, One(Leaf)>>
MixDeep(n) == << <<n, Inner \o Arr>>, One(Leaf)>>
OpenDeep(n) == << <<n, Arr>> >>
Wrapped(c) == <<One(B2(1) \o K("LA;") \o B2(1) \o K("x"))>> \o c
TypeWrapped(c) == <<One(B2(1) \o <<16, 0, 0, 0>> \o K("LA;") \o B2(1) \o K("x"))>> \o c
Nested(n) == Map(<<AnnDeep(n), ArrDeep(n), MixDeep(n), OpenDeep(n)>>, LAMBDA c : <<"value", n, MethodAttr("AnnotationDefault", c)>>)
             \o Map(<<AnnDeep(n), ArrDeep(n)>>, LAMBDA c : <<"annotation", n, ClassAttr("RuntimeVisibleAnnotations", Wrapped(c))>>)
             \o Map(<<AnnDeep(n), MixDeep(n)>>, LAMBDA c : <<"type annotation", n, ClassAttr("RuntimeVisibleTypeAnnotations", TypeWrapped(c))>>)
(* -- strings ------------------------------------------------------------------------ *)
Str(chunks) == <<One(<<1>> \o B2(ChunkSize(chunks)))>> \o chunks
Extra == PoolCount                                        \* index of the further entry
T(s) == Lit(s)
A1 == <<76, 65, 60>>                                      \* LA<
Z1 == <<62, 59>>                                          \* >;
Generic(n) == << <<n, A1>>, One(<<76, 65, 59>>), <<n, Z1>> >>
Wild(n) == << <<n, A1 \o <<43>> >>, One(<<84, 84, 59>>), <<n, Z1>> >>
Dims(n) == << <<n, <<91>> >>, One(<<73>>)>>
Dots(n) == <<One(<<76, 65>>), <<n, <<46, 65>> >>, One(<<59>>)>>
Cut(n) == << <<n, A1>> >>
Slashes(n) == <<One(<<76>>), <<n, <<65, 47>> >>, One(<<65, 59>>)>>
SigStrings(n) == <<Generic(n), Wild(n), Dims(n), Dots(n), Cut(n), Slashes(n)>>
Paren(c) == <<One(<<40>>)>> \o c \o <<One(<<41, 86>>)>>
WithString(s, rest) == HeadWith(1, Str(s)) \o rest
SigOfField == <<One(B2(1) \o B2(9) \o K("x") \o K("I") \o B2(1) \o K("Signature") \o B4(2) \o B2(Extra))>> \o Nothing \o Nothing
SigOfMethod == Nothing \o <<One(B2(1) \o B2(9) \o K("x") \o K("()V") \o B2(1) \o K("Signature") \o B4(2) \o B2(Extra))>> \o Nothing
SigOfClass == Nothing \o Nothing \o <<One(B2(1) \o K("Signature") \o B4(2) \o B2(Extra))>>
FieldDesc == <<One(B2(1) \o B2(9) \o K("x") \o B2(Extra) \o B2(0))>> \o Nothing \o Nothing
MethodDesc == Nothing \o <<One(B2(1) \o B2(9) \o K("x") \o B2(Extra) \o B2(0))>> \o Nothing
Texts(n) == LET ss == SelectSeq(SigStrings(n), LAMBDA s : ChunkSize(s) <= 65535)
                ms == SelectSeq(Map(SigStrings(n) \o << << <<n, <<73>> >> >>, << <<n, <<74, 91>> >> >> >>, Paren), LAMBDA s : ChunkSize(s) <= 65535) IN
            Map(ss, LAMBDA s : <<"field signature", n, WithString(s, SigOfField)>>)
            \o Map(ss, LAMBDA s : <<"class signature", n, WithString(s, SigOfClass)>>)
            \o Map(ms, LAMBDA s : <<"method signature", n, WithString(s, SigOfMethod)>>)
            \o Map(ss, LAMBDA s : <<"field descriptor", n, WithString(s, FieldDesc)>>)
            \o Map(ms, LAMBDA s : <<"method descriptor", n, WithString(s, MethodDesc)>>)
(* -- chains of bootstrap methods: each needs the next --------------------------------- *)
Dyns(n) == [k \in 1..n |-> One(<<17>> \o B2(k - 1) \o K("ntI"))]
ChainTable(n, same) == <<One(K("BootstrapMethods") \o B4(2 + 4 * n + 2 * same * (n - 1)) \o B2(n))>>
                       \o [k \in 1..n |-> One(K("hdl") \o (IF k = n THEN B2(0) ELSE B2(same) \o Cat([j \in 1..same |-> B2(Extra + k)])))]
UseMethod(i) == <<One(B2(1) \o B2(9) \o K("x") \o K("()V") \o B2(1) \o K("Code") \o B4(16) \o B2(1) \o B2(1) \o B4(4) \o <<19>> \o B2(Extra + i) \o <<177>> \o B2(0) \o B2(0))>>
Chain(n, same, i) == HeadWith(n, Dyns(n)) \o Nothing \o UseMethod(i) \o <<One(B2(1))>> \o ChainTable(n, same)
Ring(n) == HeadWith(n, Dyns(n)) \o Nothing \o UseMethod(0) \o <<One(B2(1) \o K("BootstrapMethods") \o B4(2 + 6 * n) \o B2(n))>>
           \o [k \in 1..n |-> One(K("hdl") \o B2(1) \o B2(Extra + (k % n)))]
Chains(n) == << <<"chain", n, Chain(n, 1, 0)>>, <<"chain", n, Chain(n, 1, n - 1)>>, <<"ring", n, Ring(n)>> >>
Doubling(n) == << <<"doubling", n, Chain(n, 2, 0)>>, <<"doubling", n, Chain(n, 3, 0)>> >>
(* -- long lists ----------------------------------------------------------------------- *)
LongList(n) == << <<"interfaces", n, <<One(<<202, 254, 186, 190, 0, 0, 0, 55>> \o B2(PoolCount) \o PoolBytes \o B2(33) \o K("cA") \o K("cB") \o B2(n)), <<n, K("cA")>> >> \o Nothing \o Nothing \o Nothing>>,
              <<"fields", n, HeadWith(0, <<>>) \o <<One(B2(n)), <<n, B2(9) \o K("x") \o K("I") \o B2(0)>> >> \o Nothing \o Nothing>>,
              <<"methods", n, HeadWith(0, <<>>) \o Nothing \o <<One(B2(n)), <<n, B2(9) \o K("x") \o K("()V") \o B2(0)>> >> \o Nothing>>,
              <<"attributes", n, HeadWith(0, <<>>) \o Nothing \o Nothing \o <<One(B2(n)), <<n, K("Foo") \o B4(1) \o <<7>> >> >>>>,
              <<"annotations", n, ClassAttr("RuntimeVisibleAnnotations", <<One(B2(n)), <<n, K("LA;") \o B2(0)>> >>)>>,
              <<"elements", n, MethodAttr("AnnotationDefault", <<One(<<91>> \o B2(n)), <<n, Leaf>> >>)>>,
              <<"code", n, MethodAttr("Code", <<One(B2(1) \o B2(1) \o B4(n)), <<n, <<177>> >>, One(B2(0) \o B2(0))>>)>>,
              <<"catches", n, MethodAttr("Code", <<One(B2(1) \o B2(1) \o B4(2) \o <<177, 177>> \o B2(n)), <<n, B2(0) \o B2(1) \o B2(1) \o B2(0)>>, One(B2(0))>>)>> >>
Depths == IF Big THEN <<1, 10, 100, 250, 251, 255, 256, 257, 258, 300, 512, 1000, 4096, 5000, 10000, 16383, 21000, 32766, 40000, 65000, 65532, 65533>>
          ELSE <<1, 100, 255, 256, 257, 1000, 10000, 32766, 65000, 65533>>
Lengths == IF Big THEN <<1, 99, 100, 101, 102, 127, 128, 129, 255, 256, 257, 1000, 3000, 10000, 16000>> ELSE <<1, 100, 101, 102, 256, 1000, 10000>>
(* -- deep, but not too deep: these must survive ------------------------------------------ *)
MustNest(n) == Map(<<AnnDeep(n), ArrDeep(n), MixDeep(n \div 2)>>, LAMBDA c : <<"must value", n, MethodAttr("AnnotationDefault", c)>>)
               \o Map(<<AnnDeep(n), ArrDeep(n), MixDeep(n \div 2)>>, LAMBDA c : <<"must annotation", n, ClassAttr("RuntimeVisibleAnnotations", Wrapped(c))>>)
               \o Map(<<AnnDeep(n), ArrDeep(n), MixDeep(n \div 2)>>, LAMBDA c : <<"must type annotation", n, ClassAttr("RuntimeVisibleTypeAnnotations", TypeWrapped(c))>>)
MustChain(n) == << <<"must chain", n, Chain(n, 1, 0)>>, <<"must chain", n, Chain(n, 1, n - 1)>>, <<"must chain", n, Chain(n, 1, n \div 2)>> >>
Cases == TLCEval(CASE Part = "annotations" -> Cat(Map(<<1, 2, 15, 16, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 250>>, MustNest))
                   [] Part = "chains" -> Cat(Map(<<1, 2, 15, 16, 17, 31, 32, 33, 50, 63, 64, 65, 80, 90, 99>>, MustChain))
                   [] OTHER -> Cat(Map(Depths, Nested)) \o Cat(Map(Depths, Texts)) \o Cat(Map(Lengths, Chains)) \o Cat(Map(<<2, 8, 16, 30, 60, 99>>, Doubling))
                 \o Cat(Map(<<1, 1000, 65534, 65535>>, LongList)))
VARIABLE i
Init == SetupPool(DeepPool, <<>>) /\ SetupPool(DeepPool, Cases) /\ i = 0
Next == i < NCases /\ i' = i + 1
Emit == i = 0 \/ PrintT("CASE " \o ToJson(Case(i)))
=============================================================================
