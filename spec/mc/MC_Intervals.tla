---------------------------- MODULE MC_Intervals ----------------------------
(* Every operator of Intervals against its declarative meaning, on every     *)
(* subset of a small code space and every argument.                          *)
EXTENDS Intervals
CONSTANT Top
VARIABLE S
\* Every set is reached, in increasing order of its members.
Init == S = {}
Next == \E c \in 0 .. Top : (\A x \in S : x < c) /\ S' = S \cup {c}
L == Canon(S)
O == Offsets(L)
Smaller(c) == { x \in S : x < c }
CanonOK    == Canonical(L, Top) /\ Points(L) = S
PointOK    == \A c \in 0 .. Top :
                /\ Has(L, c) <=> c \in S
                /\ AddPoint(L, c) = Canon(S \cup {c})
                /\ DelPoint(L, c) = Canon(S \ {c})
ClampOK    == \A a, b \in 0 .. Top : Clamp(L, a, b) = Canon(S \cap (a .. b))
PiecesOK   == \A k \in 1 .. 5 : OffsetsBy(L, k) = OffsetsFrom(0, L)
RankOK     == /\ Size(O) = Cardinality(S)
              /\ \A c \in 0 .. Top + 2 : Rank(L, O, c) = Cardinality(Smaller(c))
SelectOK   == \A i \in 0 .. Cardinality(S) - 1 :
                LET c == Select(L, O, i) IN c \in S /\ Cardinality(Smaller(c)) = i
SliceOK    == \A a, b \in 0 .. Cardinality(S) :
                Slice(L, O, a, b) = Canon({ x \in S : a <= Cardinality(Smaller(x)) /\ Cardinality(Smaller(x)) < b })
ListOK     == \A a, b, c \in 0 .. Top :
                /\ Points(AddAll(L, <<a, b, c>>)) = S \cup {a, b, c}
                /\ Points(DelAll(L, <<a, b, c>>)) = S \ {a, b, c}
                /\ Canonical(AddAll(L, <<a, b>>), Top) /\ Canonical(DelAll(L, <<a, b>>), Top)
HolesOK    == Holes(L, Top) = Canon((0 .. Top) \ S)
ManyOK     == \A a, b, c \in 0 .. Top :
                /\ AddMany(L, <<a, b, c>>) = Canon(S \cup {a, b, c})
                /\ DelMany(L, <<a, b, c>>, Top) = Canon(S \ {a, b, c})
\* Longer lists of points, in an order and with repetitions.
MoreOK     == \A T \in SUBSET (0 .. Top) :
                LET q == SetToSeq(T)
                    r == Reverse(q) \o q
                IN /\ AddMany(L, r) = Canon(S \cup T)
                   /\ DelMany(L, r, Top) = Canon(S \ T)
                   /\ AddAll(L, r) = AddMany(L, r) /\ DelAll(L, r) = DelMany(L, r, Top)
                   /\ Minus(L, Canon(T), Top) = Canon(S \ T)
                   /\ AddMany(L, <<>>) = L /\ DelMany(L, <<>>, Top) = L
=============================================================================
