-------------------------------- MODULE Util --------------------------------
(* Small operators shared by every specification in this directory.          *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Range(s) == {s[i] : i \in 1..Len(s)}
Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
Abs(x) == IF x >= 0 THEN x ELSE -x
SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x
SetMin(S) == CHOOSE x \in S : \A y \in S : y >= x
Has(r, f) == f \in DOMAIN r

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
Map(s, F(_)) == [i \in 1..Len(s) |-> F(s[i])]
Filter(s, P(_)) == SelectSeq(s, P)
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Index(s, x) == IF \E i \in 1..Len(s) : s[i] = x
               THEN CHOOSE i \in 1..Len(s) : s[i] = x /\ \A j \in 1..(i-1) : s[j] # x ELSE 0
(* first-appearance order of the values of a sequence *)
Uniq(s) == LET keep == {i \in 1..Len(s) : \A j \in 1..(i-1) : s[j] # s[i]}
               RECURSIVE go(_)
               go(i) == IF i > Len(s) THEN <<>> ELSE (IF i \in keep THEN <<s[i]>> ELSE <<>>) \o go(i + 1)
           IN go(1)
(* stable sort by a strict order *)
StableSort(s, Lt(_, _)) ==
  LET idx == SortSeq([i \in 1..Len(s) |-> i],
                     LAMBDA i, j : Lt(s[i], s[j]) \/ (~Lt(s[j], s[i]) /\ i < j))
  IN [i \in 1..Len(s) |-> s[idx[i]]]
Fold(Op(_, _), acc, s) ==
  LET RECURSIVE go(_, _)
      go(a, i) == IF i > Len(s) THEN a ELSE go(Op(a, s[i]), i + 1)
  IN go(acc, 1)
SeqOfSet(S, Lt(_, _)) ==
  LET RECURSIVE go(_)
      go(T) == IF T = {} THEN <<>> ELSE LET m == CHOOSE x \in T : \A y \in T \ {x} : Lt(x, y)
                                        IN <<m>> \o go(T \ {m})
  IN go(S)
(* floor/ceil/round-half-up division of integers; d > 0 *)
FloorDiv(a, d) == a \div d
CeilDiv(a, d) == -((-a) \div d)
RoundDiv(a, d) == (2 * a + d) \div (2 * d)
==============================================================================
