------------------------------ MODULE StatusTrace -------------------------------
(* Events of harness/status.c judged against Status.                          *)
EXTENDS TraceBase
VARIABLES Seen, Comps, Fams
Q == INSTANCE Status WITH N <- 0, Values <- {0}, Fields <- {0}, a <- <<>>,
        r <- <<>>, keep <- FALSE, pc <- "", held <- 0, ret <- 0, log <- <<>>
vars == <<Seen, Comps, Fams>>
(* a declared failure: negative, of its component, and no other has its code. *)
TCode == /\ IsEvent("code") /\ E.name \notin DOMAIN Seen /\ E.x < 0
         /\ \A n \in DOMAIN Seen : Seen[n] # E.x
         /\ E.comp >= 0 => Q!Component(E.x) = E.comp
         /\ Seen' = [n \in DOMAIN Seen \cup {E.name} |->
                       IF n = E.name THEN E.x ELSE Seen[n]]
         /\ UNCHANGED <<Comps, Fams>>
TComp == /\ IsEvent("comp") /\ E.x \notin Comps /\ E.x \in 0..65535
         /\ E.x \div 256 = E.family /\ Comps' = Comps \cup {E.x}
         /\ UNCHANGED <<Seen, Fams>>
(* every family has a number of its own, of one byte.                        *)
TFamily == /\ IsEvent("family") /\ E.x \notin Fams /\ E.x \in 0..255
           /\ Fams' = Fams \cup {E.x} /\ UNCHANGED <<Seen, Comps>>
TOk == IsEvent("okay") /\ E.x = 0 /\ UNCHANGED vars
TBuild == IsEvent("mk") /\ E.x = Q!Code(E.e, E.c, E.r) /\ UNCHANGED vars
TMake == IsEvent("cm") /\ E.x = Q!Make(E.f, E.p) /\ UNCHANGED vars
TRun == /\ IsEvent("run") /\ UNCHANGED vars
        /\ [log |-> E.log, ret |-> E.ret] = Q!Run(E.a, E.r, E.keep = 1)
TEnd == IsEvent("end") /\ E.live = 0 /\ UNCHANGED vars
Init == TBInit /\ Seen = <<>> /\ Comps = {} /\ Fams = {}
Next == \/ /\ More
           /\ TCode \/ TComp \/ TFamily \/ TOk \/ TBuild \/ TMake \/ TRun \/ TEnd
        \/ TBDone(vars)
Spec == Init /\ [][Next]_<<s, l, vars>>
=============================================================================
