---------------------------- MODULE ListingCache ----------------------------
(***************************************************************************)
(* How the Python module hands out category listings (the function         *)
(* categories): one write-once slot per version, filled by the first       *)
(* caller, in a program with several threads that share the interpreter    *)
(* lock (GIL).                                                             *)
(*                                                                         *)
(* A thread asking for version v takes the GIL, then looks at slot v:      *)
(*   filled           return its content, release the GIL;                 *)
(*   empty            claim it, make the tuple, store it, look again;      *)
(*   claimed by another thread: block, keeping the GIL (the slot is a      *)
(*                    OnceLock, which knows nothing about the GIL).        *)
(*                                                                         *)
(* SwitchInInit says whether the interpreter may pass the GIL to another   *)
(* thread while a tuple is being made.  CPython does not (only byte code   *)
(* yields, and no destructor can run while building a tuple of str); with  *)
(* it, a blocked thread can hold the GIL the maker needs, and TLC finds    *)
(* the deadlock (MC_ListingCache_switch.cfg).  The free-threaded build has *)
(* no GIL: Locking = FALSE.                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

CONSTANTS Threads, Vers, Default, Programs, SwitchInInit, Locking

VARIABLES
  prog,    \* thread -> versions still to ask for, 0 for the default
  pc,      \* thread -> "idle", "gil", "check", "make", "back"
  gil,     \* thread holding the interpreter lock, 0 if none
  slot,    \* version -> the stored listing <<identity, version it lists>>, <<>> if none
  claim,   \* version -> thread filling the slot, 0 if none
  made,    \* number of tuples made so far
  got      \* thread -> replies: <<version asked for, identity, version listed>>

vars == <<prog, pc, gil, slot, claim, made, got>>

Want(t) == IF Head(prog[t]) = 0 THEN Default ELSE Head(prog[t])

Init ==
  /\ prog \in Programs
  /\ pc = [t \in Threads |-> "idle"]
  /\ gil = 0
  /\ slot = [v \in Vers |-> <<>>]
  /\ claim = [v \in Vers |-> 0]
  /\ made = 0
  /\ got = [t \in Threads |-> <<>>]

TakeGil(t, from, to) ==
  /\ pc[t] = from
  /\ (Locking => gil = 0)
  /\ gil' = IF Locking THEN t ELSE 0
  /\ pc' = [pc EXCEPT ![t] = to]

Ask(t) ==
  /\ prog[t] # <<>>
  /\ TakeGil(t, "idle", "check")
  /\ UNCHANGED <<prog, slot, claim, made, got>>

Hit(t) ==
  /\ pc[t] = "check" /\ slot[Want(t)] # <<>>
  /\ got' = [got EXCEPT ![t] = Append(@, << Want(t), slot[Want(t)][1], slot[Want(t)][2] >>)]
  /\ prog' = [prog EXCEPT ![t] = Tail(@)]
  /\ pc' = [pc EXCEPT ![t] = "idle"]
  /\ gil' = 0
  /\ UNCHANGED <<slot, claim, made>>

Claim(t) ==
  /\ pc[t] = "check" /\ slot[Want(t)] = <<>> /\ claim[Want(t)] = 0
  /\ claim' = [claim EXCEPT ![Want(t)] = t]
  /\ pc' = [pc EXCEPT ![t] = "make"]
  /\ UNCHANGED <<prog, gil, slot, made, got>>

Switch(t) ==
  /\ SwitchInInit /\ Locking
  /\ pc[t] = "make"
  /\ pc' = [pc EXCEPT ![t] = "back"]
  /\ gil' = 0
  /\ UNCHANGED <<prog, slot, claim, made, got>>

Resume(t) == TakeGil(t, "back", "make") /\ UNCHANGED <<prog, slot, claim, made, got>>

Store(t) ==
  /\ pc[t] = "make"
  /\ made' = made + 1
  /\ slot' = [slot EXCEPT ![Want(t)] = << made + 1, Want(t) >>]
  /\ claim' = [claim EXCEPT ![Want(t)] = 0]
  /\ pc' = [pc EXCEPT ![t] = "check"]
  /\ UNCHANGED <<prog, gil, got>>

Step(t) == Ask(t) \/ Hit(t) \/ Claim(t) \/ Switch(t) \/ Resume(t) \/ Store(t)
Done == \A t \in Threads : prog[t] = <<>>
Next == (\E t \in Threads : Step(t)) \/ (Done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Step(t))

---------------------------------------------------------------------------
Replies == UNION { ToSet(got[t]) : t \in Threads }

\* What C20 states of every history.
RightListing == \A r \in Replies : r[3] = r[1]
OneObject    == \A r, s \in Replies : (r[1] = s[1]) <=> (r[2] = s[2])
MadeOnce     == made <= Cardinality(Vers)
GilHeld      == Locking => \A t, u \in Threads :
                  (pc[t] \in {"check", "make"} /\ pc[u] \in {"check", "make"}) => t = u
WriteOnce    == [][\A v \in Vers : slot[v] # <<>> => slot'[v] = slot[v]]_vars
Served       == <>Done

\* The abstract cache of PyModel: identity per version, 0 if none handed out.
Abstract == [v \in Vers |-> IF slot[v] = <<>> THEN 0 ELSE slot[v][1]]
=============================================================================
