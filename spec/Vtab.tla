---------------------------------- MODULE Vtab ----------------------------------
(* Method tables.  Every object carries the address of a table of functions; a *)
(* build that checks tables calls nothing through a table that is not one of    *)
(* the program's.  An object whose table was exchanged (forged) refuses every   *)
(* method and its release, is not changed by the refusal, and works again once  *)
(* its table is back.                                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Kinds
Allocators == {"malloc", "bump", "user"}
VARIABLES live, forged
vvars == <<live, forged>>
VtabInit == live = {} /\ forged = {}

Make(k) == k \notin live /\ live' = live \cup {k} /\ UNCHANGED forged
Forge(k) == k \in live \ forged /\ forged' = forged \cup {k} /\ UNCHANGED live
Mend(k) == k \in forged /\ forged' = forged \ {k} /\ UNCHANGED live
(* ok: the method was performed. *)
Release(k, ok) ==
    /\ k \in live /\ ok = (k \notin forged)
    /\ live' = (IF ok THEN live \ {k} ELSE live) /\ UNCHANGED forged
Call(k, ok) == k \in live /\ ok = (k \notin forged) /\ UNCHANGED vvars

ForgedLive == forged \subseteq live

(* ---- bounded check and script generation -------------------------------- *)
CONSTANTS EmitEdges
VARIABLE act
A(x) == act' = x
Methods == {"allocate", "realloc", "reclaim", "control"}
MCNext == \E k \in Kinds :
    \/ Make(k) /\ A(<<"make", k>>)
    \/ Forge(k) /\ A(<<"forge", k>>)
    \/ Mend(k) /\ A(<<"mend", k>>)
    \/ \E ok \in BOOLEAN : Release(k, ok) /\ A(<<"release", k>>)
    \/ \E ok \in BOOLEAN : Call(k, ok) /\ A(<<"vt", k>>)
    \/ \E ok \in BOOLEAN, m \in Methods :
          k \in Allocators /\ Call(k, ok) /\ A(<<"call", k, m>>)
MCSpec == VtabInit /\ act = <<>> /\ [][MCNext]_<<vvars, act>>
View == vvars
Emit == EmitEdges => PrintT(ToJson([f |-> <<live, forged>>, a |-> act',
                                    t |-> <<live', forged'>>]))
=============================================================================
