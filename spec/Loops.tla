-------------------------------- MODULE Loops --------------------------------
(***************************************************************************)
(* Loops as folds: a fold keeps TLC's evaluation flat where recursion would  *)
(* nest it.                                                                  *)
(***************************************************************************)
LOCAL INSTANCE SequencesExt
LOCAL INSTANCE Naturals
Fold(op(_, _), base, s) == FoldLeft(op, base, s)
Numbers(n) == [i \in 1..n |-> i]
Sixty == Numbers(60)
=============================================================================
