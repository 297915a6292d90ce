-------------------------------- MODULE Insn --------------------------------
(***************************************************************************)
(* The instruction set (JVMS 6.5): what the bytes at an offset denote.      *)
(* DecodeInsn(c, p, pc) gives <<next, op>>; branch targets are still byte    *)
(* offsets from the start of the code.  c.cp is the pool, c.bt the raw        *)
(* bootstrap table, c.clen the code length, c.end the end of the code.        *)
(***************************************************************************)
EXTENDS Pool

L5 == <<"I", "J", "F", "D", "A">>                    \* iload lload fload dload aload
A8 == <<"I", "J", "F", "D", "A", "B", "C", "S">>     \* iaload ... saload
N4 == <<"I", "J", "F", "D">>
Arith == <<"add", "sub", "mul", "div", "rem", "neg">>
Shift == <<"shl", "shr", "ushr", "and", "or", "xor">>
Stack == <<"pop", "pop2", "dup", "dup_x1", "dup_x2", "dup2", "dup2_x1", "dup2_x2", "swap">>
Conv == << <<"I","J">>, <<"I","F">>, <<"I","D">>, <<"J","I">>, <<"J","F">>, <<"J","D">>, <<"F","I">>, <<"F","J">>,
           <<"F","D">>, <<"D","I">>, <<"D","J">>, <<"D","F">>, <<"I","B">>, <<"I","C">>, <<"I","S">> >>
Conds == <<"eq", "ne", "lt", "ge", "gt", "le", "icmpeq", "icmpne", "icmplt", "icmpge", "icmpgt", "icmple", "acmpeq", "acmpne">>
NegPairs == {<<"eq","ne">>, <<"lt","ge">>, <<"gt","le">>, <<"icmpeq","icmpne">>, <<"icmplt","icmpge">>,
             <<"icmpgt","icmple">>, <<"acmpeq","acmpne">>, <<"null","nonnull">>}
IsNeg(a, b) == <<a, b>> \in NegPairs \/ <<b, a>> \in NegPairs
NewPrim == << <<"Z">>, <<"C">>, <<"F">>, <<"D">>, <<"B">>, <<"S">>, <<"I">>, <<"J">> >>
F32(n) == CASE n = 0 -> <<0,0,0,0>> [] n = 1 -> <<63,128,0,0>> [] n = 2 -> <<64,0,0,0>>
F64(n) == CASE n = 0 -> <<0,0,0,0,0,0,0,0>> [] n = 1 -> <<63,240,0,0,0,0,0,0>>
PushInt(n) == <<"push", <<"int", B4(n)>>>>

Fin(p, r, f(_)) == IF Bad(r) THEN r ELSE <<p, f(r[2])>>

(* A class operand: array classes are named by their descriptor.             *)
ClassOperand(cp, i) ==
  LET s == Named(cp, 7, i) IN
  IF Bad(s) THEN s
  ELSE IF C(s[2], 1) = 91 THEN Desc(s[2])
  ELSE <<1, <<"L", s[2]>>>>
DynClass(c, i) == Entry(c.cp, i)[1] = 17      \* accepted by the code in class and member positions; left open

Category2(v) == v[1] \in {"long", "double"} \/ (v[1] = "dyn" /\ v[4] \in {<<"J">>, <<"D">>})
Ldc(c, p, i, two) ==
  LET v == ConstOrDyn(c.cp, c.bt, i, {}) IN
  IF Bad(v) THEN v
  ELSE IF Category2(v[2]) # two THEN Open
  ELSE <<p, <<"push", v[2]>>>>
MemberOp(c, p, i, tags, f(_)) ==
  IF DynClass(c, i) THEN Open
  ELSE LET m == Member(c.cp, i) IN
       IF Bad(m) THEN m ELSE IF c.cp[i][1] \notin tags THEN Open ELSE <<p, f(m[2])>>
Target(c, pc, off) == IF off > 65535 \/ off < -65535 THEN -1
                      ELSE LET t == pc + off IN IF t < 0 \/ t > c.clen THEN -1 ELSE t
Branch(c, p, pc, off, f(_)) == LET t == Target(c, pc, off) IN IF t < 0 THEN Err ELSE <<p, f(t)>>

Sorted(ks) == \A i \in 1..(Len(ks) - 1) : ks[i][1] < ks[i + 1][1]
Switch(c, p, pc, op) ==
  LET q == p + 1 + ((3 - (pc % 4)) % 4)          \* aligned operands
      b == c.b IN
  IF ~Has(c, q, 8) THEN Err
  ELSE LET d == Target(c, pc, S4(b, q)) IN
  IF op = 171 THEN
    LET n == Len4(b, q + 4) IN
    IF n < 0 \/ n > 8191 \/ ~Has(c, q + 8, 8 * n) THEN Err
    ELSE LET ks == [i \in 1..n |-> <<S4(b, q + 8 * i), Target(c, pc, S4(b, q + 8 * i + 4))>>] IN
         IF d < 0 \/ \E i \in 1..n : ks[i][2] < 0 THEN Err
         ELSE IF ~Sorted(ks) THEN Open
         ELSE <<q + 8 + 8 * n, <<"lookupswitch", d, ks>>>>
  ELSE IF ~Has(c, q + 8, 4) THEN Err
  ELSE LET low == S4(b, q + 4)
           high == S4(b, q + 8)
           n == IF high < low THEN 0
                ELSE IF low < 0 THEN (IF high > low + 65535 THEN 0 ELSE high - low + 1)
                ELSE IF high - low > 65535 THEN 0 ELSE high - low + 1 IN
       IF n = 0 \/ ~Has(c, q + 12, 4 * n) THEN Err
       ELSE LET ts == [i \in 1..n |-> Target(c, pc, S4(b, q + 8 + 4 * i))] IN
            IF d < 0 \/ \E i \in 1..n : ts[i] < 0 THEN Err
            ELSE <<q + 12 + 4 * n, <<"tableswitch", d, low, ts>>>>

NeedBytes(op) ==       \* operand bytes of the fixed-size instructions
  CASE op \in {16, 18, 188, 169} \cup 21..25 \cup 54..58 -> 1
    [] op \in {17, 19, 20, 132, 187, 189, 192, 193, 198, 199} \cup 153..168 \cup 178..184 -> 2
    [] op = 197 -> 3
    [] op \in {185, 186, 200, 201} -> 4
    [] OTHER -> 0

DecodeInsn(c, p, pc) ==
  LET b == c.b
      op == b[p]
      k == NeedBytes(op)
      n == p + 1 + k
      u1 == b[p + 1]
      u2 == W2(b, p + 1) IN
  IF ~Has(c, p + 1, k) THEN Err
  ELSE
  CASE op = 0 -> <<n, <<"nop">>>>
    [] op = 1 -> <<n, <<"aconst_null">>>>
    [] op \in 2..8 -> <<n, PushInt(op - 3)>>
    [] op \in 9..10 -> <<n, <<"push", <<"long", <<0,0,0,0,0,0,0,op - 9>>>>>>>>
    [] op \in 11..13 -> <<n, <<"push", <<"float", F32(op - 11)>>>>>>
    [] op \in 14..15 -> <<n, <<"push", <<"double", F64(op - 14)>>>>>>
    [] op = 16 -> <<n, PushInt(S1(u1))>>
    [] op = 17 -> <<n, PushInt(S2(b, p + 1))>>
    [] op = 18 -> Ldc(c, n, u1, FALSE)
    [] op = 19 -> Ldc(c, n, u2, FALSE)
    [] op = 20 -> Ldc(c, n, u2, TRUE)
    [] op \in 21..25 -> <<n, <<"load", L5[op - 20], u1>>>>
    [] op \in 26..45 -> <<n, <<"load", L5[1 + (op - 26) \div 4], (op - 26) % 4>>>>
    [] op \in 46..53 -> <<n, <<"xaload", A8[op - 45]>>>>
    [] op \in 54..58 -> <<n, <<"store", L5[op - 53], u1>>>>
    [] op \in 59..78 -> <<n, <<"store", L5[1 + (op - 59) \div 4], (op - 59) % 4>>>>
    [] op \in 79..86 -> <<n, <<"xastore", A8[op - 78]>>>>
    [] op \in 87..95 -> <<n, <<Stack[op - 86]>>>>
    [] op \in 96..119 -> <<n, <<"arith", N4[1 + ((op - 96) % 4)], Arith[1 + (op - 96) \div 4]>>>>
    [] op \in 120..131 -> <<n, <<"arith", N4[1 + ((op - 120) % 2)], Shift[1 + (op - 120) \div 2]>>>>
    [] op = 132 -> <<n, <<"iinc", u1, S1(b[p + 2])>>>>
    [] op \in 133..147 -> <<n, <<"conv", Conv[op - 132][1], Conv[op - 132][2]>>>>
    [] op = 148 -> <<n, <<"lcmp">>>>
    [] op = 149 -> <<n, <<"fcmp", "F", -1>>>>
    [] op = 150 -> <<n, <<"fcmp", "F", 1>>>>
    [] op = 151 -> <<n, <<"fcmp", "D", -1>>>>
    [] op = 152 -> <<n, <<"fcmp", "D", 1>>>>
    [] op \in 153..166 -> Branch(c, n, pc, S2(b, p + 1), LAMBDA t : <<"if", Conds[op - 152], t>>)
    [] op = 167 -> Branch(c, n, pc, S2(b, p + 1), LAMBDA t : <<"if", "always", t>>)
    [] op = 168 -> Branch(c, n, pc, S2(b, p + 1), LAMBDA t : <<"jsr", t>>)
    [] op = 169 -> <<n, <<"ret", u1>>>>
    [] op \in {170, 171} -> Switch(c, p, pc, op)
    [] op \in 172..176 -> <<n, <<"return", L5[op - 171]>>>>
    [] op = 177 -> <<n, <<"return", "V">>>>
    [] op = 178 -> MemberOp(c, n, u2, {9}, LAMBDA m : <<"field", "get", "static", m>>)
    [] op = 179 -> MemberOp(c, n, u2, {9}, LAMBDA m : <<"field", "put", "static", m>>)
    [] op = 180 -> MemberOp(c, n, u2, {9}, LAMBDA m : <<"field", "get", "virtual", m>>)
    [] op = 181 -> MemberOp(c, n, u2, {9}, LAMBDA m : <<"field", "put", "virtual", m>>)
    [] op = 182 -> MemberOp(c, n, u2, {10}, LAMBDA m : <<"invoke", "virtual", m>>)
    [] op = 183 -> MemberOp(c, n, u2, {10, 11}, LAMBDA m : <<"invoke", "special", m>>)
    [] op = 184 -> MemberOp(c, n, u2, {10, 11}, LAMBDA m : <<"invoke", "static", m>>)
    [] op = 185 -> IF b[p + 4] # 0 THEN (IF Member(c.cp, u2)[1] = 0 /\ ~DynClass(c, u2) THEN Err ELSE Open)
                   ELSE MemberOp(c, n, u2, {11}, LAMBDA m : <<"invokeinterface", m, b[p + 3]>>)
    [] op = 186 -> LET d == Dyn(c.cp, c.bt, 18, u2, {}) IN
                   IF Bad(d) THEN d ELSE IF b[p + 3] # 0 \/ b[p + 4] # 0 THEN Open
                   ELSE <<n, <<"invokedynamic", d[2]>>>>
    [] op = 187 -> IF DynClass(c, u2) THEN Open
                   ELSE LET s == Named(c.cp, 7, u2) IN
                        IF Bad(s) THEN s ELSE IF C(s[2], 1) = 91 THEN Open ELSE <<n, <<"new", s[2]>>>>
    [] op = 188 -> IF u1 \in 4..11 THEN <<n, <<"newarray", NewPrim[u1 - 3], 1>>>> ELSE Err
    [] op = 189 -> IF DynClass(c, u2) THEN Open
                   ELSE Fin(n, ClassOperand(c.cp, u2), LAMBDA t : <<"newarray", t, 1>>)
    [] op = 190 -> <<n, <<"arraylength">>>>
    [] op = 191 -> <<n, <<"athrow">>>>
    [] op = 192 -> IF DynClass(c, u2) THEN Open ELSE Fin(n, ClassOperand(c.cp, u2), LAMBDA t : <<"checkcast", t>>)
    [] op = 193 -> IF DynClass(c, u2) THEN Open ELSE Fin(n, ClassOperand(c.cp, u2), LAMBDA t : <<"instanceof", t>>)
    [] op = 194 -> <<n, <<"monitor", "enter">>>>
    [] op = 195 -> <<n, <<"monitor", "exit">>>>
    [] op = 196 ->
         IF ~Has(c, p + 1, 3) THEN Err
         ELSE LET w == u1
                  x == W2(b, p + 2) IN
         CASE w \in 21..25 -> <<p + 4, <<"load", L5[w - 20], x>>>>
           [] w \in 54..58 -> <<p + 4, <<"store", L5[w - 53], x>>>>
           [] w = 169 -> <<p + 4, <<"ret", x>>>>
           [] w = 132 -> IF Has(c, p + 4, 2) THEN <<p + 6, <<"iinc", x, S2(b, p + 4)>>>> ELSE Err
           [] OTHER -> Err
    [] op = 197 -> IF DynClass(c, u2) THEN (IF b[p + 3] = 0 THEN Err ELSE Open)
                   ELSE LET t == ClassOperand(c.cp, u2)
                            dims == b[p + 3] IN
                        IF dims = 0 THEN Err
                        ELSE IF Bad(t) THEN t
                        ELSE IF t[2][1] # "[" THEN Err   \* a class that is no array: no array can be created from it
                        ELSE IF dims > t[2][2] THEN Open
                        ELSE IF dims > 1 THEN <<n, <<"newarray", t[2], dims>>>>
                        ELSE IF t[2][2] = 1 THEN <<n, <<"newarray", t[2][3], 1>>>>
                        ELSE <<n, <<"newarray", <<"[", t[2][2] - 1, t[2][3]>>, 1>>>>
    [] op = 198 -> Branch(c, n, pc, S2(b, p + 1), LAMBDA t : <<"if", "null", t>>)
    [] op = 199 -> Branch(c, n, pc, S2(b, p + 1), LAMBDA t : <<"if", "nonnull", t>>)
    [] op = 200 -> Branch(c, n, pc, S4(b, p + 1), LAMBDA t : <<"if", "always", t>>)
    [] op = 201 -> Branch(c, n, pc, S4(b, p + 1), LAMBDA t : <<"jsr", t>>)
    [] OTHER -> Err
=============================================================================
