------------------------------ MODULE PyModel ------------------------------
(***************************************************************************)
(* The Python module on top of the library.                                *)
(*                                                                         *)
(* A call is a function from argument names to argument values.  A value   *)
(* is a record with a field k:                                             *)
(*   absent, none                                                          *)
(*   names  xs : strings, in an iterable of any kind                       *)
(*   chars  xs : code points of a str                                      *)
(*   int    x  : an int that fits u32 (two's complement)                   *)
(*   big       : an int that does not                                      *)
(*   ver    x  : a UnicodeVersion member, by index                         *)
(*   surr      : text with a lone surrogate (cannot be encoded)            *)
(*   bad       : a value of a wrong type                                   *)
(*   text   s  : a str, for functions taking text                          *)
(*                                                                         *)
(* A reply is [ok |-> ..] or [exc |-> class, says |-> the strings among    *)
(* the arguments that the message mentions, msg |-> message].              *)
(***************************************************************************)
EXTENDS Library, Signature

VARIABLE cache   \* version -> identity of the listing handed out for it, 0 if none yet

PyInit == cache = [v \in Versions |-> 0]

\* A new interpreter starts without listings.
PyStart == cache' = [v \in Versions |-> 0] /\ UNCHANGED objs

Given(a)      == a.k \notin {"absent", "none"}
NamesOf(a)    == ToSet(a.xs)
BadNames(a)   == IF a.k = "names" THEN { n \in NamesOf(a) : ~IsCatName(n) } ELSE {}
CatArg(a)     == IF Given(a) THEN << { CatNamed(n) : n \in NamesOf(a) } >> ELSE <<>>
CharArg(a)    == IF Given(a) THEN << a.xs >> ELSE <<>>
VerArg(a)     == IF Given(a) THEN a.x ELSE Len(Runs)

\* Exception classes a value gives rise to by itself.
ArgFault(a) == CASE a.k = "bad"  -> {"TypeError"}
                 [] a.k = "big"  -> {"OverflowError"}
                 [] a.k = "surr" -> {"ValueError"}
                 [] OTHER -> {}

\* The query a well-formed call stands for.
PyQuery(a) == [ v   |-> VerArg(a.version),
                inc |-> CatArg(a.categories),         exc |-> CatArg(a.exclude_categories),
                ich |-> CharArg(a.include_characters), xch |-> CharArg(a.exclude_characters),
                min |-> IF Given(a.min_codepoint) THEN a.min_codepoint.x ELSE 0,
                max |-> IF Given(a.max_codepoint) THEN a.max_codepoint.x ELSE MaxCP ]

QueryArgNames == {"categories", "exclude_categories", "include_characters", "exclude_characters",
                  "min_codepoint", "max_codepoint", "version"}

\* Which of several faults is reported is not specified; that one of them is, is.
PyQueryOK(a, r) ==
  LET faults == UNION { ArgFault(a[n]) : n \in QueryArgNames }
      bad    == BadNames(a.categories) \cup BadNames(a.exclude_categories)
      clean  == faults = {}
  IN IF clean /\ bad = {}
     THEN LET e == Reply(PyQuery(a))
          IN IF "ok" \in DOMAIN e THEN r = e
             ELSE "exc" \in DOMAIN r /\ r.exc = "ValueError" /\ r.msg = e.err[4]
     ELSE /\ "exc" \in DOMAIN r
          /\ \/ r.exc \in faults
             \/ r.exc = "ValueError" /\ bad \cap ToSet(r.says) # {}
             \/ /\ r.exc = "ValueError"   \* bounds known to be wrong may be reported first
                /\ ArgFault(a.min_codepoint) = {} /\ ArgFault(a.max_codepoint) = {}
                /\ LET mn == IF Given(a.min_codepoint) THEN a.min_codepoint.x ELSE 0
                       mx == IF Given(a.max_codepoint) THEN a.max_codepoint.x ELSE MaxCP
                       d  == Verdict([min |-> mn, max |-> mx])
                   IN d # "ok" /\ r.msg = Message(d, mn, mx)

PyExpandOK(a, r) ==
  LET faults == ArgFault(a.categories) \cup ArgFault(a.version)
      bad == IF a.categories.k = "names" THEN { n \in NamesOf(a.categories) : ~IsDesignation(n) } ELSE {}
  IN IF faults = {} /\ bad = {}
     THEN LET e == Expand(Normalized[VerArg(a.version)], a.categories.xs)
          IN r = [ok |-> [i \in DOMAIN e.ok |-> Abbrev[e.ok[i]]]]
     ELSE /\ "exc" \in DOMAIN r
          /\ \/ r.exc \in faults
             \/ r.exc = "ValueError" /\ bad \cap ToSet(r.says) # {}

\* UnicodeVersion(text): r.ok is the index of the member it is equal to.
PyParseOK(a, r) ==
  IF ArgFault(a) # {} THEN "exc" \in DOMAIN r /\ r.exc \in ArgFault(a)
  ELSE IF IsVersionName(a.s) THEN r = [ok |-> VersionNamed(a.s)]
  ELSE "exc" \in DOMAIN r /\ r.exc = "ValueError" /\ a.s \in ToSet(r.says)

\* categories(version): a reply carries the listing and its identity (positive).
\* One write-once slot per version.
PyListOK(a, r) ==
  IF ArgFault(a) # {} THEN "exc" \in DOMAIN r /\ r.exc \in ArgFault(a)
  ELSE LET v == VerArg(a)
           n == Normalized[v]
       IN /\ "ok" \in DOMAIN r
          /\ r.ok = [i \in DOMAIN n |-> Abbrev[n[i]]]
          /\ IF cache[v] # 0 THEN r.id = cache[v]
             ELSE r.id > 0 /\ \A w \in Versions : cache[w] # r.id

PyList(a, r) ==
  /\ cache' = IF ArgFault(a) = {} THEN [cache EXCEPT ![VerArg(a)] = r.id] ELSE cache
  /\ UNCHANGED objs

\* Any call: pos is a sequence of values, kw one of <<name, value>>.  An ill-formed call is a TypeError whatever
\* the values are.
Absent == [k |-> "absent"]
CallOK(fn, pos, kw, r) ==
  LET names == { kw[j][1] : j \in DOMAIN kw }
      b == Received(fn, pos, kw, Absent)
  IN IF ~WellFormed(fn, Len(pos), names) THEN "exc" \in DOMAIN r /\ r.exc = "TypeError"
     ELSE CASE fn = "query" -> PyQueryOK(b, r)
            [] fn = "as_general_categories" -> PyExpandOK(b, r)
            [] fn = "UnicodeVersion" -> PyParseOK(b.value, r)
            [] fn = "latest" -> r = [ok |-> Len(Runs)]
            [] fn = "categories" ->
                 IF ArgFault(b.version) # {} THEN "exc" \in DOMAIN r /\ r.exc \in ArgFault(b.version)
                 ELSE LET n == Normalized[VerArg(b.version)] IN r = [ok |-> [i \in DOMAIN n |-> Abbrev[n[i]]]]

\* What the package offers by name.
PublicNames == {"UnicodeVersion", "as_general_categories", "available_versions", "categories", "query", "__version__"}
=============================================================================
