------------------------------ MODULE Unicode ------------------------------
(***************************************************************************)
(* Names and fixed facts about general categories and versions.            *)
(* Categories are 1 .. 30, in the order of their full names.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Abbrev == << "Pe", "Pc", "Cc", "Sc", "Pd", "Nd", "Me", "Pf", "Cf", "Pi",
             "Nl", "Zl", "Ll", "Sm", "Lm", "Sk", "Mn", "Ps", "Lo", "No",
             "Po", "So", "Zp", "Co", "Zs", "Mc", "Cs", "Lt", "Cn", "Lu" >>

LongName == << "CLOSE_PUNCTUATION", "CONNECTOR_PUNCTUATION", "CONTROL", "CURRENCY_SYMBOL",
   "DASH_PUNCTUATION", "DECIMAL_NUMBER", "ENCLOSING_MARK", "FINAL_PUNCTUATION", "FORMAT",
   "INITIAL_PUNCTUATION", "LETTER_NUMBER", "LINE_SEPARATOR", "LOWERCASE_LETTER", "MATH_SYMBOL",
   "MODIFIER_LETTER", "MODIFIER_SYMBOL", "NONSPACING_MARK", "OPEN_PUNCTUATION", "OTHER_LETTER",
   "OTHER_NUMBER", "OTHER_PUNCTUATION", "OTHER_SYMBOL", "PARAGRAPH_SEPARATOR", "PRIVATE_USE",
   "SPACE_SEPARATOR", "SPACING_MARK", "SURROGATE", "TITLECASE_LETTER", "UNASSIGNED",
   "UPPERCASE_LETTER" >>

\* Abbreviations in alphabetical order.
Alphabetical == << "Cc", "Cf", "Cn", "Co", "Cs", "Ll", "Lm", "Lo", "Lt", "Lu", "Mc", "Me", "Mn",
   "Nd", "Nl", "No", "Pc", "Pd", "Pe", "Pf", "Pi", "Po", "Ps", "Sc", "Sk", "Sm", "So",
   "Zl", "Zp", "Zs" >>

AllCats == 1 .. 30

IndexIn(seq, x) == CHOOSE i \in DOMAIN seq : seq[i] = x
CatNamed(a) == IndexIn(Abbrev, a)
IsCatName(s) == \E i \in DOMAIN Abbrev : Abbrev[i] = s
AlphaRank == [c \in AllCats |-> IndexIn(Alphabetical, Abbrev[c])]

Cc == CatNamed("Cc")
Cs == CatNamed("Cs")
Cn == CatNamed("Cn")
Co == CatNamed("Co")
Zl == CatNamed("Zl")
Zp == CatNamed("Zp")

\* Major classes (UAX #44, table "General_Category Values").
MajorNames == << "L", "M", "N", "P", "S", "Z", "C" >>
MajorMembers == <<
   { "Lu", "Ll", "Lt", "Lm", "Lo" }, { "Mn", "Mc", "Me" }, { "Nd", "Nl", "No" },
   { "Pc", "Pd", "Ps", "Pe", "Pi", "Pf", "Po" }, { "Sm", "Sc", "Sk", "So" },
   { "Zs", "Zl", "Zp" }, { "Cc", "Cf", "Cs", "Co", "Cn" } >>
IsMajor(s) == \E i \in DOMAIN MajorNames : MajorNames[i] = s
MajorCats(s) == { CatNamed(a) : a \in MajorMembers[IndexIn(MajorNames, s)] }

VersionNames == << "9.0.0", "10.0.0", "11.0.0", "12.0.0", "12.1.0", "13.0.0", "14.0.0",
                   "15.0.0", "15.1.0", "16.0.0", "17.0.0" >>
\* Major, minor, update numbers, to state that the order is by age.
VersionNumbers == << <<9,0,0>>, <<10,0,0>>, <<11,0,0>>, <<12,0,0>>, <<12,1,0>>, <<13,0,0>>,
                     <<14,0,0>>, <<15,0,0>>, <<15,1,0>>, <<16,0,0>>, <<17,0,0>> >>
IsVersionName(s) == \E i \in DOMAIN VersionNames : VersionNames[i] = s
VersionNamed(s) == IndexIn(VersionNames, s)
Latest == Len(VersionNames)

\* Noncharacters: U+FDD0..U+FDEF and the last two code points of each plane.
IsNonCharacter(c) == (64976 <= c /\ c <= 65007) \/ c % 65536 >= 65534
NonCharacterRuns == << <<64976, 65007>> >> \o
                    [p \in 1 .. 17 |-> << (p - 1) * 65536 + 65534, (p - 1) * 65536 + 65535 >>]

RECURSIVE JoinNames(_, _)
\* "Ll, Lm, Lo": abbreviations of a list of categories separated by ", ".
JoinNames(cs, k) ==
  IF k > Len(cs) THEN ""
  ELSE (IF k = 1 THEN "" ELSE ", ") \o Abbrev[cs[k]] \o JoinNames(cs, k + 1)
=============================================================================
