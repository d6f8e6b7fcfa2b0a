----------------------------- MODULE MC_CatBits -----------------------------
(* Category sets as bit patterns: every history of the operations on a       *)
(* pattern of N bits refines the same history on a set of bit numbers, and   *)
(* the iterator (lowest bit, then clear it) yields the members in order.     *)
EXTENDS Integers, Sequences, FiniteSets, Bitwise
CONSTANTS N
VARIABLES x, S, it, rest
vars == <<x, S, it, rest>>
Max == 2 ^ N - 1
Bits == 0 .. N - 1
RECURSIVE Lowest(_, _)
\* Number of trailing zeros; N for zero.
Lowest(v, k) == IF k = N \/ (v \div 2 ^ k) % 2 = 1 THEN k ELSE Lowest(v, k + 1)
RECURSIVE Ones(_)
Ones(v) == IF v = 0 THEN 0 ELSE (v % 2) + Ones(v \div 2)
Init == /\ \/ x = 0 /\ S = {}
           \/ x = Max /\ S = Bits
           \/ \E k \in Bits : x = 2 ^ k /\ S = {k}
        /\ it = 0 /\ rest = {}
AddBit(k)  == x' = x | (2 ^ k) /\ S' = S \cup {k} /\ UNCHANGED <<it, rest>>
DropBit(k) == x' = x & (Max ^^ (2 ^ k)) /\ S' = S \ {k} /\ UNCHANGED <<it, rest>>
Join(y)    == x' = x | y /\ S' = S \cup { k \in Bits : (y \div 2 ^ k) % 2 = 1 } /\ UNCHANGED <<it, rest>>
\* Excluding: all bits except y's, and then only x's.
Less(y)    == x' = (Max ^^ y) & x /\ S' = S \ { k \in Bits : (y \div 2 ^ k) % 2 = 1 } /\ UNCHANGED <<it, rest>>
Open       == it' = x /\ rest' = S /\ UNCHANGED <<x, S>>
Turn       == LET k == Lowest(it, 0)
              IN /\ k < N
                 /\ it' = it & (Max ^^ (2 ^ k))
                 /\ rest' = rest \ {CHOOSE m \in rest : \A n \in rest : m <= n}
                 /\ UNCHANGED <<x, S>>
Next == Open \/ Turn \/ (\E k \in Bits : AddBit(k) \/ DropBit(k)) \/ (\E y \in 0 .. Max : Join(y) \/ Less(y))
Spec == Init /\ [][Next]_vars
Same(v, T) == /\ v \in 0 .. Max
              /\ T = { k \in Bits : (v \div 2 ^ k) % 2 = 1 }
              /\ Ones(v) = Cardinality(T)
              /\ (v = 0) <=> (T = {})
              /\ Lowest(v, 0) = IF T = {} THEN N ELSE CHOOSE m \in T : \A n \in T : m <= n
Refines == Same(x, S) /\ Same(it, rest)
=============================================================================
