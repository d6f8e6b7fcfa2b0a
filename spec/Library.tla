------------------------------ MODULE Library ------------------------------
(***************************************************************************)
(* The library as a state machine.  A program using it holds query         *)
(* builders, interval sets, iterators over them, category sets and         *)
(* iterators over those; each public operation is one action that changes  *)
(* the objects it is given, or only reads them and returns a reply.        *)
(*                                                                         *)
(* For an operation that returns something there is an operator giving the *)
(* one right reply in the current state (or a predicate on replies where   *)
(* several are right); for one that changes something, an action.          *)
(* Objects are held in numbered slots.  Options are <<>> or <<x>>.         *)
(* A u32 is written in two's complement, see QueryModel.                   *)
(***************************************************************************)
EXTENDS QueryModel, Unicode, FiniteSetsExt

CONSTANTS Slots

VARIABLES
  qs,    \* slot -> query builder
  sets,  \* slot -> interval set: [iv |-> canonical list, off |-> offsets]
  its,   \* slot -> iterator over an interval set: [iv, off, a, b], members a .. b-1 remain
  css,   \* slot -> category set
  cis    \* slot -> remaining categories of a category iterator

objs == <<qs, sets, its, css, cis>>

EmptySet == [iv |-> <<>>, off |-> <<0>>]
NoIter   == [iv |-> <<>>, off |-> <<0>>, a |-> 0, b |-> 0]

LibInit ==
  /\ qs   = [h \in Slots |-> Fresh(Len(Runs))]
  /\ sets = [h \in Slots |-> EmptySet]
  /\ its  = [h \in Slots |-> NoIter]
  /\ css  = [h \in Slots |-> {}]
  /\ cis  = [h \in Slots |-> {}]

---------------------------------------------------------------------------
(* Query builders.  A setter takes the builder in slot h and leaves the    *)
(* changed one in slot t; with t # h the original survives as a copy.      *)

PutQuery(t, x) == qs' = [qs EXCEPT ![t] = x] /\ UNCHANGED <<sets, its, css, cis>>

NewQuery(t, v)              == PutQuery(t, Fresh(v))
NewDefaultQuery(t)          == PutQuery(t, Fresh(Len(Runs)))
CopyQuery(h, t)             == PutQuery(t, qs[h])
IncludeCategories(h, t, o)  == PutQuery(t, [qs[h] EXCEPT !.inc = o])
ExcludeCategories(h, t, o)  == PutQuery(t, [qs[h] EXCEPT !.exc = o])
IncludeCharacters(h, t, cs) == PutQuery(t, [qs[h] EXCEPT !.ich = <<cs>>])
ExcludeCharacters(h, t, cs) == PutQuery(t, [qs[h] EXCEPT !.xch = <<cs>>])
MinCodepoint(h, t, x)       == PutQuery(t, [qs[h] EXCEPT !.min = x])
MaxCodepoint(h, t, x)       == PutQuery(t, [qs[h] EXCEPT !.max = x])

SameQuery(h, t) == qs[h] = qs[t]

---------------------------------------------------------------------------
(* Interval sets.  Building one has the same verdict as asking for the     *)
(* intervals; on failure no set comes into being.                          *)

SetOf(iv) == [iv |-> iv, off |-> Offsets(iv)]

PutSet(t, iv) == sets' = [sets EXCEPT ![t] = SetOf(iv)] /\ UNCHANGED <<qs, its, css, cis>>
BuildSet(q, t) == IF Verdict(q) = "ok" THEN PutSet(t, Answer(q)) ELSE UNCHANGED objs

\* Reply reduced to the length (and emptiness) of the set.
BuildReply(q) ==
  LET e == Reply(q)
  IN IF "ok" \in DOMAIN e
     THEN LET n == Size(Offsets(e.ok)) IN [ok |-> << n, IF n = 0 THEN 1 ELSE 0 >>]
     ELSE e

Count(S)       == Size(S.off)
IsMember(S, c) == 0 <= c /\ Has(S.iv, c)
Position(S, c) == IF IsMember(S, c) THEN << Rank(S.iv, S.off, c) >> ELSE <<>>
Above(S, c)    == IF c < 0 THEN Count(S) ELSE Rank(S.iv, S.off, c)
At(S, i)       == IF 0 <= i /\ i < Count(S) THEN << Select(S.iv, S.off, i) >> ELSE <<>>

---------------------------------------------------------------------------
(* Iterators over interval sets. *)

Remaining(I) == I.b - I.a
PutIter(t, x) == its' = [its EXCEPT ![t] = x] /\ UNCHANGED <<qs, sets, css, cis>>
OpenIter(h, t) == PutIter(t, [iv |-> sets[h].iv, off |-> sets[h].off, a |-> 0, b |-> Count(sets[h])])
CopyIter(h, t) == PutIter(t, its[h])

\* n (possibly huge) steps forward (backward) lead to this front (back).
FrontAfter(I, n) == IF n < Remaining(I) THEN I.a + n ELSE I.b
BackAfter(I, n)  == IF n < Remaining(I) THEN I.b - n ELSE I.a

TakeFront(h, n) == PutIter(h, [its[h] EXCEPT !.a = FrontAfter(its[h], n)])
TakeBack(h, n)  == PutIter(h, [its[h] EXCEPT !.b = BackAfter(its[h], n)])
\* The members those steps produce, as a canonical list.
FrontOf(I, n)   == Slice(I.iv, I.off, I.a, FrontAfter(I, n))
BackOf(I, n)    == Slice(I.iv, I.off, BackAfter(I, n), I.b)
Rest(I)         == Slice(I.iv, I.off, I.a, I.b)

\* Skip k members and produce the next one, if any.
NthOf(I, k)     == IF k < Remaining(I) THEN << Select(I.iv, I.off, I.a + k) >> ELSE <<>>
NthBackOf(I, k) == IF k < Remaining(I) THEN << Select(I.iv, I.off, I.b - 1 - k) >> ELSE <<>>
Nth(h, k)     == PutIter(h, [its[h] EXCEPT !.a = IF k < Remaining(its[h]) THEN @ + k + 1 ELSE its[h].b])
NthBack(h, k) == PutIter(h, [its[h] EXCEPT !.b = IF k < Remaining(its[h]) THEN @ - k - 1 ELSE its[h].a])

FirstOf(I) == NthOf(I, 0)
LastOf(I)  == NthBackOf(I, 0)
\* Every k-th remaining member, starting with the first, at most n of them.
StepsOf(I, k, n) ==
  LET m == (Remaining(I) + k - 1) \div k
  IN [i \in 1 .. (IF m < n THEN m ELSE n) |-> Select(I.iv, I.off, I.a + (i - 1) * k)]

\* Size bounds <<lower, option of upper>> must contain the true number.
BoundsContain(hint, n) == hint[1] <= n /\ (hint[2] = <<>> \/ n <= hint[2][1])

---------------------------------------------------------------------------
(* Category sets and their iterators. *)

PutCats(t, x) == css' = [css EXCEPT ![t] = x] /\ UNCHANGED <<qs, sets, its, cis>>
AddCat(h, k)  == PutCats(h, css[h] \cup {k})
DropCat(h, k) == PutCats(h, css[h] \ {k})
JoinCats(h, g, t) == PutCats(t, css[h] \cup css[g])
JoinCat(h, k, t)  == PutCats(t, css[h] \cup {k})

SortedCats(S) == SetToSortSeq(S, LAMBDA x, y : x < y)
RawValue(S)   == FoldSet(LAMBDA c, acc : acc + 2 ^ (c - 1), 0, S)
CatsText(S)   == JoinNames(SortedCats(S), 1)

PutCatIter(t, x)  == cis' = [cis EXCEPT ![t] = x] /\ UNCHANGED <<qs, sets, its, css>>
OpenCatIter(h, t) == PutCatIter(t, css[h])
LeastCat(S)       == IF S = {} THEN <<>> ELSE << CHOOSE x \in S : \A y \in S : x <= y >>
DropLeast(S)      == S \ ToSet(LeastCat(S))
NextCat(h)        == PutCatIter(h, DropLeast(cis[h]))
\* The k+1 least members go, the last of them is produced.
AfterNth(S, k) == IF k >= Cardinality(S) THEN {}
                  ELSE LET s == SortedCats(S) IN { s[i] : i \in k + 2 .. Len(s) }
NthCatOf(S, k) == IF k >= Cardinality(S) THEN <<>> ELSE << SortedCats(S)[k + 1] >>
NthCat(h, k)   == PutCatIter(h, AfterNth(cis[h], k))

---------------------------------------------------------------------------
(* Stateless operations. *)

\* Category lists of a version.
TableOf(v) ==
  FoldLeft(LAMBDA acc, r : [acc EXCEPT ![r[3]] = Append(@, << r[1], r[2] >>)],
           [k \in Cats |-> <<>>], Runs[v])
ListOf(v, k) ==
  LET sel == SelectSeq(Runs[v], LAMBDA r : r[3] = k)
  IN [i \in DOMAIN sel |-> << sel[i][1], sel[i][2] >>]

\* Number of intervals per category, and the normalised order: by that number,
\* ties by abbreviation, Cc and Cs last.
CountsOf(v) == FoldLeft(LAMBDA acc, r : [acc EXCEPT ![r[3]] = @ + 1], [k \in Cats |-> 0], Runs[v])
NormKey(counts, k) == IF k = Cs THEN 1000002 ELSE IF k = Cc THEN 1000001
                      ELSE counts[k] * 30 + AlphaRank[k]
NormalOrder(counts) == SetToSortSeq(AllCats, LAMBDA x, y : NormKey(counts, x) < NormKey(counts, y))
Normalized == [v \in Versions |-> NormalOrder(CountsOf(v))]

\* Expansion of designations: categories in the (normalised) order given, or the first bad entry.
IsDesignation(s) == IsMajor(s) \/ IsCatName(s)
Denotes(s) == IF IsMajor(s) THEN MajorCats(s) ELSE { CatNamed(s) }
BadCategory(s) == << "InvalidCategory", s, "'" \o s \o "' is not a valid Unicode category" >>
BadVersion(s)  == << "InvalidVersion", s, "'" \o s \o "' is not a valid Unicode version" >>
Expand(order, ds) ==
  LET bad == SelectSeq(ds, LAMBDA d : ~IsDesignation(d))
  IN IF bad # <<>> THEN [err |-> BadCategory(bad[1])]
     ELSE LET W == UNION { Denotes(ds[i]) : i \in DOMAIN ds }
          IN [ok |-> SelectSeq(order, LAMBDA k : k \in W)]

ParseCategory(s) == IF IsCatName(s) THEN [ok |-> CatNamed(s)] ELSE [err |-> BadCategory(s)]
ParseVersion(s)  == IF IsVersionName(s) THEN [ok |-> VersionNamed(s)] ELSE [err |-> BadVersion(s)]
=============================================================================
