------------------------------- MODULE VtabTrace -------------------------------
EXTENDS TraceBase
VARIABLES live, forged
V == INSTANCE Vtab WITH Kinds <- {}, EmitEdges <- FALSE, act <- <<>>
vars == <<live, forged>>
BadTable == "ERROR_GENERAL_BAD_VTABLE"
(* nothing of a forged table is ever called, and a refusal changes nothing. *)
NoCalls == E.fc = 0
Result(ok) == IF ok THEN E.st = "ok" ELSE E.st = BadTable /\ E.d = 0

TMake == IsEvent("make") /\ E.st = "ok" /\ V!Make(E.k)
TForge == IsEvent("forge") /\ V!Forge(E.k)
TMend == IsEvent("mend") /\ V!Mend(E.k)
TRelease == /\ IsEvent("release")
            /\ \E ok \in BOOLEAN : V!Release(E.k, ok) /\ Result(ok)
            /\ (E.k = "desc" => (E.open = 1) = (E.st # "ok"))
TVt == /\ IsEvent("vt")
       /\ \E ok \in BOOLEAN : /\ V!Call(E.k, ok) /\ Result(ok)
                              /\ E.got = (IF ok THEN 1 ELSE 0)
                              /\ E.same = (IF ok THEN 0 ELSE 1)
TCall == /\ IsEvent("call")
         /\ \E ok \in BOOLEAN :
               /\ V!Call(E.k, ok)
               /\ IF ok /\ E.m = "control"
                  THEN E.st \notin {"ok", BadTable}     (* no such key *)
                  ELSE IF ok /\ E.k = "bump" /\ E.m = "realloc"
                  THEN E.st = "ERROR_GENERAL_REALLOCATION_NOT_SUPPORTED"
                  ELSE Result(ok)
               /\ (E.st # "ok" => E.same = 1)
               /\ E.keeps = 1
TEnd == IsEvent("end") /\ E.live = 0 /\ E.blocks = 0 /\ E.foreign = 0
        /\ live = {} /\ UNCHANGED vars

Init == TBInit /\ V!VtabInit
Next == \/ /\ More /\ NoCalls
           /\ \/ TMake \/ TForge \/ TMend \/ TRelease \/ TVt \/ TCall \/ TEnd
        \/ TBDone(vars)
Spec == Init /\ [][Next]_<<s, l, vars>>
=============================================================================
