------------------------------- MODULE GenLib -------------------------------
(***************************************************************************)
(* Enumerations as sequences: products, selections, mutations.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Loops
Joined(ss) == TLCEval(Fold(LAMBDA x, y : x \o y, <<>>, ss))
Map(s, f(_)) == TLCEval([i \in 1..Len(s) |-> f(s[i])])
For(s, f(_)) == Joined(Map(s, f))
Upto(a, b) == [i \in 1..(b - a + 1) |-> a + i - 1]
Pairs(as, bs, f(_, _)) == TLCEval([n \in 1..(Len(as) * Len(bs)) |-> f(as[((n - 1) \div Len(bs)) + 1], bs[((n - 1) % Len(bs)) + 1])])
Triples(as, bs, cs, f(_, _, _)) ==
  TLCEval([n \in 1..(Len(as) * Len(bs) * Len(cs)) |->
     f(as[((n - 1) \div (Len(bs) * Len(cs))) + 1], bs[(((n - 1) \div Len(cs)) % Len(bs)) + 1], cs[((n - 1) % Len(cs)) + 1])])
(* Sequences of length n over the elements of s.                              *)
RECURSIVE Words(_, _)
Words(s, n) == IF n = 0 THEN << <<>> >> ELSE Pairs(Words(s, n - 1), s, LAMBDA w, x : Append(w, x))
WordsUpto(s, n) == For(Upto(0, n), LAMBDA k : Words(s, k))
(* Single edits of a sequence, new elements taken from xs.                     *)
Edits(s, xs) ==
  LET n == Len(s)
      Cut(i, j) == SubSeq(s, 1, i) \o SubSeq(s, j, n) IN
  Map(Upto(1, n), LAMBDA i : Cut(i - 1, i + 1))
  \o Map(Upto(0, n - 1), LAMBDA i : SubSeq(s, 1, i))
  \o Map(Upto(2, n), LAMBDA i : SubSeq(s, i, n))
  \o Map(Upto(1, n - 1), LAMBDA i : SubSeq(s, 1, i - 1) \o <<s[i + 1], s[i]>> \o SubSeq(s, i + 2, n))
  \o Pairs(Upto(0, n), xs, LAMBDA i, x : SubSeq(s, 1, i) \o <<x>> \o SubSeq(s, i + 1, n))
  \o Pairs(Upto(1, n), xs, LAMBDA i, x : SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i + 1, n))
=============================================================================
