------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Checks a recorded execution of the real library against Library and     *)
(* PyModel.  Every line of the recording is one call: the operation, its   *)
(* arguments and the reply.  A line is consumed by the specified action    *)
(* for that operation, provided the reply is one the specification allows  *)
(* in the state reached; otherwise there is no next state, and the number  *)
(* of states is smaller than the number of lines plus one.                 *)
(***************************************************************************)
EXTENDS PyModel, Sweeps, TableGen, Json, IOUtils

TrMaxCP == 1114111
TrCats  == 1 .. 30
UcdRuns == JsonDeserialize(IOEnv.UCD)
TrRuns  == UcdRuns
TrSlots == 1 .. 8

Lines == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES
  l,      \* next line
  seen    \* version -> recorded table of that version (<<>> until recorded)

vars == <<objs, cache, l, seen>>

---------------------------------------------------------------------------
(* Decoding *)

OptSetOf(j) == IF j = <<>> THEN <<>> ELSE << ToSet(j[1]) >>
QueryOf(j) == [v |-> j.v, inc |-> OptSetOf(j.inc), exc |-> OptSetOf(j.exc),
               ich |-> j.ich, xch |-> j.xch, min |-> j.min, max |-> j.max]
Odd(e) == e.odd # <<>>    \* replies the recorder could not express

\* Comparison that says what was expected.
Eq(got, want) == IF got = want THEN TRUE ELSE PrintT(<<"EXPECTED", l, want>>) /\ FALSE
Is(p, note) == IF p THEN TRUE ELSE PrintT(<<"EXPECTED", l, note>>) /\ FALSE

---------------------------------------------------------------------------
(* Recorded tables: laws that need no reference data. *)

TotalSize(lists) == FoldLeft(LAMBDA n, iv : n + Size(Offsets(iv)), 0, lists)
AllIntervals(lists) == SortedIvs(FlattenSeq(lists))
Partition(lists) ==
  /\ Len(lists) = 30
  /\ \A k \in DOMAIN lists : Canonical(lists[k], MaxCP)
  /\ LET s == AllIntervals(lists)
     IN /\ Len(s) = FoldLeft(LAMBDA n, iv : n + Len(iv), 0, lists)
        /\ s # <<>> /\ s[1][1] = 0 /\ s[Len(s)][2] = MaxCP
        /\ \A i \in 1 .. Len(s) - 1 : s[i + 1][1] = s[i][2] + 1

\* Canonical list a is contained in canonical list b.
Within(a, b) == \A i \in DOMAIN a : AllIn(b, a[i][1], a[i][2])

Fixed == { Cc, Cs, Co, Zl, Zp }
Extends(old, new) == /\ \A k \in Fixed : old[k] = new[k]
                     /\ Within(new[Cn], old[Cn])
Stable(v, lists) ==
  /\ Within(NonCharacterRuns, lists[Cn])
  /\ \A w \in Versions : seen[w] # <<>> =>
        /\ (w < v => Extends(seen[w], lists))
        /\ (v < w => Extends(lists, seen[w]))

---------------------------------------------------------------------------
(* Which replies are right. *)

Rev(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
Opt(b) == IF b THEN 1 ELSE 0

ErrorKinds == {"InvalidCategory", "InvalidVersion", "InvalidCodepoints", "CodepointNotInRange"}
\* A reply with its points in canonical form.
Points_(r) == IF "ok" \in DOMAIN r THEN [ok |-> Normal(r.ok, MaxCP)] ELSE r
WantedVerdict(q) ==
  LET d == Verdict(q)
  IN IF d = "ok" THEN [ok |-> 1] ELSE [err |-> << d, q.min, q.max, Message(d, q.min, q.max) >>]

(* Values: what each recorded value is, to the specification. *)
ErrorOf(x) ==
  CASE x.k = "cat" -> ParseCategory(x.s).err
    [] x.k = "ver" -> ParseVersion(x.s).err
    [] x.k = "ask" -> WantedVerdict(QueryOf(x.q)).err
ValueOf(kind, x) == IF kind = "error" THEN ErrorOf(x) ELSE IF kind = "catset" THEN ToSet(x) ELSE x
SameValue(x, y) == Len(x) = Len(y) /\ x = y
ValuesOK(e) ==
  LET vs == [i \in DOMAIN e.xs |-> ValueOf(e.kind, e.xs[i])]
      n == Len(vs)
      equal == [i \in 1 .. n |-> [j \in 1 .. n |->
                  Opt(IF e.kind = "error" THEN vs[i][1] = vs[j][1] /\ SameValue(vs[i], vs[j]) ELSE vs[i] = vs[j])]]
      negated == [i \in 1 .. n |-> [j \in 1 .. n |-> 1 - equal[i][j]]]
  IN /\ "ok" \in DOMAIN e.r
     /\ Eq(e.r.ok.eq, equal) /\ Eq(e.r.ok.ne, negated)
     /\ Eq(e.r.ok.debug, equal) /\ Eq(e.r.ok.full, equal)
     /\ Is(\A i, j \in 1 .. n : equal[i][j] = 1 => e.r.ok.hash[i][j] = 1, "equal values hash equally")

Threads_ == {"Send", "Sync", "Unpin", "UnwindSafe", "RefUnwindSafe"}
TraitsOf ==
  [ UnicodeVersion     |-> Threads_ \cup {"Clone", "Copy", "Eq", "Hash", "Debug", "Display", "FromStr"},
    UnicodeCategory    |-> Threads_ \cup {"Clone", "Copy", "Eq", "Hash", "Debug", "Display", "FromStr"},
    UnicodeCategorySet |-> Threads_ \cup {"Clone", "Copy", "Eq", "Hash", "Debug", "Display", "Default"},
    IntervalQuery      |-> Threads_ \cup {"Clone", "Debug"},
    IntervalSet        |-> Threads_ \cup {"Clone", "Debug"},
    Codepoints         |-> Threads_ \cup {"Clone", "Debug", "DoubleEndedIterator"},
    Error              |-> Threads_ \cup {"Debug", "Display", "Error"} ]

\* The list that keeps the first p[1] and the last p[2] intervals of the canonical list b, with p[3] between them.
StillCanonical(b, p) ==
  LET n == Len(b)
  IN /\ 0 <= p[1] /\ 0 <= p[2] /\ p[1] + p[2] <= n
     /\ Canonical((IF p[1] = 0 THEN <<>> ELSE << b[p[1]] >>) \o p[3] \o (IF p[2] = 0 THEN <<>> ELSE << b[n - p[2] + 1] >>), MaxCP)

PlainAnswer(e) == Answer([Fresh(e.v) EXCEPT !.inc = OptSetOf(e.inc), !.exc = OptSetOf(e.exc)])

Allowed(e) ==
  CASE (* ---- queries, compared with the specified answer *)
       e.op = "ask"   -> Eq(e.r, Reply(QueryOf(e.q)))
    [] e.op = "askb"  -> LET q == QueryOf(e.q)
                         IN \A i \in DOMAIN e.xs :
                              Eq(e.rs[i], Reply([q EXCEPT !.min = e.xs[i][1], !.max = e.xs[i][2]]))
    [] e.op = "askc"  -> LET q == QueryOf(e.q)
                         IN \A i \in DOMAIN e.xs :
                              Eq(e.rs[i], Reply([q EXCEPT !.ich = e.xs[i][1], !.xch = e.xs[i][2]]))
    [] e.op = "asks"  -> LET q == QueryOf(e.q)
                         IN \A i \in DOMAIN e.xs :
                              Eq(e.rs[i], Reply([q EXCEPT !.inc = OptSetOf(e.xs[i][1]), !.exc = OptSetOf(e.xs[i][2])]))
    [] e.op = "singles"  -> ~Odd(e) /\ Eq(e.runs, PlainAnswer(e))
       (* ---- queries, compared with other recorded answers *)
    [] e.op = "canon" -> Is("ok" \in DOMAIN e.r /\ Canonical(e.r.ok, MaxCP), "canonical list")
    [] e.op = "verdict" -> LET w == WantedVerdict(QueryOf(e.q)) IN Eq(e.r, w) /\ Eq(e.s, w)
    [] e.op = "patches" -> (* the answers with one more setting, as changes to the answer b without it *)
         Canonical(e.b, MaxCP) => ~Odd(e) /\ \A i \in DOMAIN e.ps : Is(StillCanonical(e.b, e.ps[i]), e.ps[i])
    [] e.op = "clamp" -> LET b == Normal(e.b, MaxCP)
                         IN \A i \in DOMAIN e.xs : Eq(Points_(e.rs[i]), [ok |-> Clamp(b, e.xs[i][1], e.xs[i][2])])
    [] e.op = "chars" -> LET b == Normal(e.b, MaxCP)
                         IN \A i \in DOMAIN e.xs :
                              Eq(Points_(e.rs[i]), [ok |-> Removing(Adding(b, OptList(e.xs[i][1])), OptList(e.xs[i][2]), MaxCP)])
    [] e.op = "algebra" ->
         /\ Is(e.whole = [ok |-> << <<e.min, e.max>> >>], "no category setting selects the whole range")
         /\ Is(\A k \in DOMAIN e.ones : "ok" \in DOMAIN e.ones[k], "single categories")
         /\ Is(FoldLeft(LAMBDA n, r : n + Size(Offsets(Normal(r.ok, MaxCP))), 0, e.ones) = e.max - e.min + 1,
               "a category and its complement are disjoint and cover the range")
         /\ \A i \in DOMAIN e.xs :
              LET sel == SortedCats(Selected([inc |-> OptSetOf(e.xs[i][1]), exc |-> OptSetOf(e.xs[i][2])]))
              IN Eq(Points_(e.rs[i]), [ok |-> Normal(FlattenSeq([j \in DOMAIN sel |-> e.ones[sel[j]].ok]), MaxCP)])
    [] e.op \in {"maxsweep", "minsweep"} ->
         LET s == e.b
         IN Canonical(s, MaxCP) => /\ e.full = 1 => Eq([ok |-> s], Reply(QueryOf(e.q)))
                                   /\ ~Odd(e) /\ (IF "at" \in DOMAIN e THEN e.segs # <<>> ELSE Covers(e.segs, e.from, e.to))
                                   /\ \A i \in DOMAIN e.segs :
                                        LET g == e.segs[i] IN Is(IF e.op = "maxsweep" THEN MaxSeg(s, g) ELSE MinSeg(s, g), g)
    [] e.op \in {"addsweep", "delsweep"} ->
         LET s == e.b
         IN Canonical(s, MaxCP) => /\ e.full = 1 => Eq([ok |-> s], Reply(QueryOf(e.q)))
                                   /\ ~Odd(e) /\ (IF "at" \in DOMAIN e THEN e.segs # <<>> ELSE CoversChars(e.segs, e.from, e.to))
                                   /\ \A i \in DOMAIN e.segs :
                                        LET g == e.segs[i] IN Is(IF e.op = "addsweep" THEN AddSeg(s, g) ELSE DelSeg(s, g), g)
       (* ---- the same question again: the recorder writes the first answer once, then
               lists (as distances back) the questions whose later answers were identical to it *)
    [] e.op = "asked"  -> "ok" \in DOMAIN e.r \/ "err" \in DOMAIN e.r
    [] e.op = "again"  -> \A i \in DOMAIN e.back : e.back[i] < l /\ Lines[l - e.back[i]].op = "asked"
    [] e.op = "differs" -> Eq(e.r, e.first)
    [] e.op = "pysame" -> \A i \in DOMAIN e.others : Eq(e.others[i], e.first)
       (* ---- termination: any documented reply *)
    [] e.op = "alive"  -> "ok" \in DOMAIN e.r \/ ("err" \in DOMAIN e.r /\ e.r.err[1] \in ErrorKinds)
       (* ---- operations on interval lists *)
    [] e.op = "merge"  -> Eq(e.r, [ok |-> Normal(e.a, MaxCP)]) /\ Is(Canonical(e.r.ok, MaxCP), "canonical list")
    [] e.op = "subtract" -> Eq(e.r, [ok |-> Minus(e.a, e.b, MaxCP)])
    [] e.op = "fromstr" -> Eq(e.r, [ok |-> Adding(<<>>, e.s)])
    [] e.op = "select" -> LET S == Selected([inc |-> OptSetOf(e.inc), exc |-> << ToSet(e.exc) >>])
                          IN Eq(e.r, [ok |-> << SortedCats(S), RawValue(S) >>])
    [] e.op = "forset" -> Eq(Points_(e.r), [ok |-> Answer([Fresh(e.v) EXCEPT !.inc = << ToSet(e.cats) >>])])
       (* ---- query builders *)
    [] e.op \in {"qnew", "qdef", "qset", "qcopy"} -> TRUE
    [] e.op = "qask"   -> Eq(e.r, Reply(qs[e.h]))
    [] e.op = "qbuild" -> Eq(e.r, BuildReply(qs[e.h]))
    [] e.op = "qeq"    -> Eq(e.r, Opt(SameQuery(e.h, e.g)))
       (* ---- interval sets *)
    [] e.op = "set"    -> Eq(e.r, BuildReply(QueryOf(e.q)))
    [] e.op = "sbase"  -> (* a set, and separately the intervals of the same query *) Canonical(e.b, MaxCP)
    [] e.op = "slen"   -> Eq(e.r, [ok |-> << Count(sets[e.h]), Opt(Count(sets[e.h]) = 0) >>])
    [] e.op = "at"     -> Eq(e.r, [ok |-> At(sets[e.h], e.x)])
    [] e.op = "pos"    -> Eq(e.r, [ok |-> Position(sets[e.h], e.x)])
    [] e.op = "has"    -> Eq(e.r, [ok |-> << Opt(IsMember(sets[e.h], e.x)) >>])
    [] e.op = "above"  -> Eq(e.r, [ok |-> << Above(sets[e.h], e.x) >>])
    [] e.op \in {"atseg", "posseg", "hasseg", "aboveseg"} ->
         /\ ~Odd(e) /\ (IF "at" \in DOMAIN e THEN e.segs # <<>> ELSE Covers(e.segs, e.from, e.to))
         /\ LET S == sets[e.h]
            IN \A i \in DOMAIN e.segs :
                 LET g == e.segs[i]
                 IN Is(CASE e.op = "atseg"  -> AtSeg(S.iv, S.off, g)
                         [] e.op = "posseg" -> PosSeg(S.iv, S.off, g)
                         [] e.op = "hasseg" -> HasSeg(S.iv, g)
                         [] e.op = "aboveseg" -> AboveSeg(S.iv, S.off, g), g)
       (* ---- iterators over interval sets *)
    [] e.op \in {"iopen", "icopy"} -> TRUE
    [] e.op = "front"  -> Eq(e.r, [ok |-> FrontOf(its[e.h], e.n)])
    [] e.op = "back"   -> Eq(e.r, [ok |-> Rev(BackOf(its[e.h], e.n))])
    [] e.op = "nth"    -> Eq(e.r, [ok |-> NthOf(its[e.h], e.n)])
    [] e.op = "nthb"   -> Eq(e.r, [ok |-> NthBackOf(its[e.h], e.n)])
    [] e.op = "hint"   -> /\ "ok" \in DOMAIN e.r
                          /\ Is(BoundsContain(e.r.ok, Remaining(its[e.h])), Remaining(its[e.h]))
    [] e.op = "itat"   -> (* <<members gone from the front, from the back, n, nth(n), nth_back(n), size bounds>> *)
                          LET S == sets[e.h]
                          IN \A i \in DOMAIN e.xs :
                               LET x == e.xs[i]
                                   I == [iv |-> S.iv, off |-> S.off, a |-> x[1], b |-> Count(S) - x[2]]
                               IN /\ Eq(<<x[4], x[5]>>, << NthOf(I, x[3]), NthBackOf(I, x[3]) >>)
                                  /\ Is(BoundsContain(x[6], Remaining(I)), Remaining(I))
    [] e.op = "rest"   -> Eq(e.r, [ok |-> IF e.rev = 1 THEN Rev(Rest(its[e.h])) ELSE Rest(its[e.h])])
    [] e.op = "count"  -> Eq(e.r, [ok |-> << Remaining(its[e.h]) >>])
    [] e.op = "first"  -> Eq(e.r, [ok |-> FirstOf(its[e.h])])
    [] e.op = "last"   -> Eq(e.r, [ok |-> LastOf(its[e.h])])
    [] e.op = "steps"  -> Eq(e.r, [ok |-> StepsOf(its[e.h], e.k, e.n)])
    [] e.op = "skip"   -> Eq(e.r, [ok |-> LET I == its[e.h] IN Slice(I.iv, I.off, FrontAfter(I, e.n), I.b)])
       (* ---- category sets *)
    [] e.op \in {"cput", "cmajor", "cadd", "cdrop", "cjoin", "cjoinc"} -> TRUE
    [] e.op = "cobs"   -> LET S == css[e.h]
                          IN Eq(e.r, [ok |-> << Cardinality(S), Opt(S = {}), RawValue(S) >>,
                                      list |-> SortedCats(S), has |-> SortedCats(S),
                                      text |-> CatsText(S)])
    [] e.op = "ceq"    -> Eq(e.r, [ok |-> << Opt(css[e.h] = css[e.g]), Opt(css[e.h] # css[e.g]) >>])
    [] e.op = "chash"  -> /\ "ok" \in DOMAIN e.r
                          /\ Is(css[e.h] = css[e.g] => e.r = [ok |-> <<1>>], "equal sets hash equally")
    [] e.op = "ciopen" -> TRUE
    [] e.op = "cinext" -> Eq(e.r, [ok |-> LeastCat(cis[e.h])])
    [] e.op = "cinth"  -> Eq(e.r, [ok |-> NthCatOf(cis[e.h], e.n)])
    [] e.op = "cihint" -> LET n == Cardinality(cis[e.h]) IN Eq(e.r, [ok |-> << n, n, n >>])
    [] e.op = "cirest" -> (* set h, first n dropped, the rest taken in some way *)
                          LET s == SortedCats(css[e.h])
                          IN Eq(e.r, [ok |-> SubSeq(s, e.n + 1, Len(s))])
    [] e.op = "cilast" -> (* the last of the rest *)
                          LET s == SortedCats(css[e.h])
                          IN Eq(e.r, [ok |-> IF Len(s) > e.n THEN << s[Len(s)] >> ELSE <<>>])
    [] e.op = "cistep" -> (* every k-th of the rest *)
                          LET s == SortedCats(css[e.h])
                              m == IF Len(s) > e.n THEN (Len(s) - e.n + e.k - 1) \div e.k ELSE 0
                          IN Eq(e.r, [ok |-> [i \in 1 .. m |-> s[e.n + 1 + (i - 1) * e.k]]])
    [] e.op = "cilen"  -> LET n == Cardinality(css[e.h])
                          IN Eq(e.r, [ok |-> << IF n > e.n THEN n - e.n ELSE 0 >>])
       (* ---- names *)
    [] e.op = "pcat"   -> Eq(e.r, ParseCategory(e.s))
    [] e.op = "pver"   -> Eq(e.r, ParseVersion(e.s))
    [] e.op = "pones"  -> (* one character of the name, written as @, runs over all that are not ASCII *)
         LET s == e.pre \o "@" \o e.suf
             x == IF e.kind = "pcat" THEN BadCategory(s) ELSE BadVersion(s)
         IN CoversChars(e.segs, 128, MaxCP) /\ Len(e.rs) = Len(e.segs) /\ \A i \in DOMAIN e.rs : Eq(e.rs[i], x)
    [] e.op = "catname"-> Eq(e.r, [ok |-> << Abbrev[e.k], Abbrev[e.k], Abbrev[e.k] >>])
    [] e.op = "vername"-> Eq(e.r, [ok |-> << VersionNames[e.v], VersionNames[e.v] >>])
    [] e.op = "alias"  -> Eq(e.r, [ok |-> << Abbrev[IndexIn(LongName, e.s)] >>])
    [] e.op = "class"  -> Eq(ToSet(e.r.ok), { Abbrev[k] : k \in MajorCats(e.s) })
    [] e.op = "versions" -> Eq(e.r, [ok |-> VersionNames, latest |-> VersionNames[Latest],
                                     dflt |-> VersionNames[Latest]])
       (* ---- per-version data *)
    [] e.op = "norm"   -> (* counts: number of intervals in each list of the table *)
                          Eq(e.r, [ok |-> NormalOrder(e.counts)])
    [] e.op = "expand" -> (* order: the recorded normalised order of the version *)
                          Eq(e.r, Expand(e.order, e.ds))
    [] e.op = "odds"   -> (* lists in which one entry runs over all strings of at most two ASCII characters:
                             the entries accepted there (d: as a designation, otherwise as a category) *)
                          LET want == { Abbrev[k] : k \in Cats } \cup (IF e.d = 1 THEN {"L", "M", "N", "P", "S", "Z", "C"} ELSE {})
                          IN ~Odd(e) /\ Eq(ToSet(e.ok), want) /\ Is(Len(e.ok) = Cardinality(want), want)
    [] e.op = "listof" -> (* one category of one version, from table, lookup or query *)
                          Eq(e.r, [ok |-> ListOf(e.v, e.k)])
    [] e.op = "tables" -> (* the whole table of a version, compared with the reference data *)
                          Eq(e.r, [ok |-> TableOf(e.v)])
    [] e.op = "part"   -> /\ "ok" \in DOMAIN e.r
                          /\ Is(Partition(e.r.ok), "partition of the code space")
    [] e.op = "agree"  -> (* the same lists were obtained in another way *)
                          Is(e.r = [ok |-> seen[e.v]], "same lists as table()")
    [] e.op = "evolve" -> /\ "ok" \in DOMAIN e.r
                          /\ Is(Stable(e.v, e.r.ok), "stability between versions")
       (* ---- values *)
    [] e.op = "values" -> ValuesOK(e)
    [] e.op = "traits" -> Is(TraitsOf[e.t] \subseteq ToSet(e.r), TraitsOf[e.t])
    [] e.op = "same"   -> Is(e.r = 1, e.what)
       (* ---- the script that makes the tables *)
    [] e.op = "gentables" -> Is(GenOK(e), "table generation")
       (* ---- the Python module *)
    [] e.op = "pystart"  -> (* another interpreter *) TRUE
    [] e.op = "pyquery"  -> Is(PyQueryOK(e.a, e.r), "python query")
    [] e.op = "pyexpand" -> Is(PyExpandOK(e.a, e.r), "python as_general_categories")
    [] e.op = "pyparse"  -> Is(PyParseOK(e.a, e.r), "python UnicodeVersion()")
    [] e.op = "pylist"   -> Is(PyListOK(e.a, e.r), "python categories()")
    [] e.op = "pymember" -> (* str, repr, name through the class, position in available_versions *)
                            Eq(e.r, [ok |-> << VersionNames[e.v],
                                               "UnicodeVersion(\"" \o VersionNames[e.v] \o "\")" >>])
    [] e.op = "pyavail"  -> Eq(e.r, [ok |-> [i \in 1 .. Len(VersionNames) |-> i],
                                     members |-> Len(VersionNames), latest |-> Latest])
    [] e.op = "pyeq"     -> Eq(e.r, [ok |-> << Opt(e.v = e.w), Opt(e.v # e.w) >>])
    [] e.op = "pyother"  -> (* compared with something that is no member *) Eq(e.r, [ok |-> <<0, 1>>])
    [] e.op = "pymutate" -> Is("exc" \in DOMAIN e.r /\ e.r.exc \in {"AttributeError", "TypeError"},
                               "members cannot be modified")
    [] e.op = "pycall"   -> Is(CallOK(e.fn, e.pos, e.kw, e.r), "binding of arguments")
    [] e.op = "pynames"  -> /\ "ok" \in DOMAIN e.r
                            /\ Is(PublicNames \subseteq ToSet(e.r.ok), PublicNames)
    [] e.op = "pyraises" -> Is("exc" \in DOMAIN e.r /\ e.r.exc \in ToSet(e.any), "exception of the given class")
    [] OTHER -> FALSE

---------------------------------------------------------------------------
(* What the call changes. *)

Keep == UNCHANGED <<objs, cache, seen>>
Lib(A) == A /\ UNCHANGED <<cache, seen>>

SetQuery(h, t, f, x) ==
  CASE f = "inc" -> IncludeCategories(h, t, OptSetOf(x))
    [] f = "exc" -> ExcludeCategories(h, t, OptSetOf(x))
    [] f = "ich" -> IncludeCharacters(h, t, x)
    [] f = "xch" -> ExcludeCharacters(h, t, x)
    [] f = "min" -> MinCodepoint(h, t, x)
    [] f = "max" -> MaxCodepoint(h, t, x)

Effect(e) ==
  CASE e.op = "qnew"   -> Lib(NewQuery(e.t, e.v))
    [] e.op = "qdef"   -> Lib(NewDefaultQuery(e.t))
    [] e.op = "qcopy"  -> Lib(CopyQuery(e.h, e.t))
    [] e.op = "qset"   -> Lib(SetQuery(e.h, e.t, e.f, e.x))
    [] e.op = "set"    -> Lib(BuildSet(QueryOf(e.q), e.t))
    [] e.op = "sbase"  -> Lib(PutSet(e.t, e.b))
    [] e.op = "iopen"  -> Lib(OpenIter(e.h, e.t))
    [] e.op = "icopy"  -> Lib(CopyIter(e.h, e.t))
    [] e.op = "front"  -> Lib(TakeFront(e.h, e.n))
    [] e.op = "back"   -> Lib(TakeBack(e.h, e.n))
    [] e.op = "nth"    -> Lib(Nth(e.h, e.n))
    [] e.op = "nthb"   -> Lib(NthBack(e.h, e.n))
    [] e.op = "cput"   -> Lib(PutCats(e.t, ToSet(e.ks)))
    [] e.op = "cmajor" -> Lib(PutCats(e.t, MajorCats(e.s)))
    [] e.op = "cadd"   -> Lib(AddCat(e.h, e.k))
    [] e.op = "cdrop"  -> Lib(DropCat(e.h, e.k))
    [] e.op = "cjoin"  -> Lib(JoinCats(e.h, e.g, e.t))
    [] e.op = "cjoinc" -> Lib(JoinCat(e.h, e.k, e.t))
    [] e.op = "ciopen" -> Lib(OpenCatIter(e.h, e.t))
    [] e.op = "cinext" -> Lib(NextCat(e.h))
    [] e.op = "cinth"  -> Lib(NthCat(e.h, e.n))
    [] e.op \in {"part", "evolve"} -> seen' = [seen EXCEPT ![e.v] = e.r.ok] /\ UNCHANGED <<objs, cache>>
    [] e.op = "pystart" -> PyStart /\ UNCHANGED seen
    [] e.op = "pylist" -> PyList(e.a, e.r) /\ UNCHANGED seen
    [] OTHER -> Keep

---------------------------------------------------------------------------
Init ==
  /\ LibInit
  /\ PyInit
  /\ seen = [v \in Versions |-> <<>>]
  /\ l = 1

Next ==
  /\ l <= Len(Lines)
  /\ IF Allowed(Lines[l]) THEN TRUE ELSE PrintT(<<"REJECTED", l>>) /\ FALSE
  /\ Effect(Lines[l])
  /\ l' = l + 1

Spec == Init /\ [][Next]_vars

\* The recording is one behaviour: the line number identifies the state.
Line == l

Consumed == l = Len(Lines) + 1
Accepted == TLCGet("stats").diameter = Len(Lines) + 1
=============================================================================
