------------------------------ MODULE TraceBase ------------------------------
(* Position bookkeeping shared by every trace specification.                 *)
(*                                                                           *)
(* traces.ndjson holds one recorded script per line: a JSON array of events. *)
(* s is the script being replayed (every script is an initial state), l the  *)
(* next event.  A state with events left and no enabled action is a TLC      *)
(* deadlock: the specification does not allow that event, and s, l in the    *)
(* deadlocked state say which.  A fully consumed script stutters.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

Traces == ndJsonDeserialize("traces.ndjson")

VARIABLES s, l

tvars == <<s, l>>

TBInit == s \in 1..Len(Traces) /\ l = 1
E == Traces[s][l]
More == l <= Len(Traces[s])
IsEvent(op) == E.op = op /\ l' = l + 1 /\ s' = s
TBDone(vars) == ~More /\ UNCHANGED tvars /\ UNCHANGED vars

Has(f) == f \in DOMAIN E
Oom == Has("oom") /\ E.oom = 1
SeqSet(q) == {q[i] : i \in 1..Len(q)}
NoDup(q) == Cardinality(SeqSet(q)) = Len(q)
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
(* the released resources are exactly those in S, each once. *)
Released(S) == NoDup(E.rel) /\ SeqSet(E.rel) = S
=============================================================================
