-------------------------------- MODULE Bytes --------------------------------
(***************************************************************************)
(* Byte-level primitives.  A parser takes a context c (c.b bytes, c.end the *)
(* last readable position) and a position p and yields <<next, value>>;     *)
(* next = 0 means the bytes denote nothing (an error), next = -1 means the  *)
(* properties leave the case open.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Loops

Err == <<0, <<>>>>
Open == <<-1, <<>>>>
Bad(r) == r[1] <= 0
Has(c, p, n) == p + n - 1 <= c.end
U1(c, p) == IF Has(c, p, 1) THEN <<p + 1, c.b[p]>> ELSE Err
W2(b, p) == b[p] * 256 + b[p + 1]
U2(c, p) == IF Has(c, p, 2) THEN <<p + 2, W2(c.b, p)>> ELSE Err
Raw(c, p, n) == IF Has(c, p, n) THEN <<p + n, SubSeq(c.b, p, p + n - 1)>> ELSE Err
S1(x) == IF x >= 128 THEN x - 256 ELSE x
S2(b, p) == S1(b[p]) * 256 + b[p + 1]
S4(b, p) == S1(b[p]) * 16777216 + b[p + 1] * 65536 + b[p + 2] * 256 + b[p + 3]
(* A four-byte length that can lie within the data, or -1.                  *)
Len4(b, p) == IF b[p] >= 64 THEN -1 ELSE S4(b, p)
B2(n) == <<n \div 256, n % 256>>
B4(n) == IF n >= 0 THEN <<n \div 16777216, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>
         ELSE LET m == -1 - n IN   \* ones' complement of a non-negative number
              <<255 - (m \div 16777216), 255 - ((m \div 65536) % 256), 255 - ((m \div 256) % 256), 255 - (m % 256)>>
(* The signed number of a big-endian four-byte tuple.                       *)
Int4(t) == S4(t, 1)

RECURSIVE LexLess(_, _, _)
LexLess(a, b, i) == IF i > Len(b) THEN FALSE
                    ELSE IF i > Len(a) THEN TRUE
                    ELSE IF a[i] # b[i] THEN a[i] < b[i]
                    ELSE LexLess(a, b, i + 1)
Less(a, b) == LexLess(a, b, 1)
(* n items from p on: Item(position, number) yields <<next, value>>.           *)
Times(Item(_, _), p, n) ==
  LET Step(s, i) == IF Bad(s) THEN s
                    ELSE LET r == Item(s[1], i) IN IF Bad(r) THEN r ELSE <<r[1], Append(s[2], r[2])>>
  IN  Fold(Step, <<p, <<>>>>, Numbers(n))
Range(s) == {s[i] : i \in 1..Len(s)}
Concat(ss) == Fold(LAMBDA x, y : x \o y, <<>>, ss)
=============================================================================
