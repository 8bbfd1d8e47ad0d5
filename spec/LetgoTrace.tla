------------------------------ MODULE LetgoTrace ------------------------------
(* Events of harness/letgo.c: whole calls of Letgo.                           *)
EXTENDS TraceBase
VARIABLES made
L == INSTANCE Letgo WITH Parts <- 0, phase <- "none", have <- 0,
        amiss <- {}, st <- "ok"
vars == <<made>>
Status == IF E.st = "status_7f000002" THEN "refused"
          ELSE IF E.st \in {"ok", "oom"} THEN E.st ELSE "sys"
Amiss == (IF Oom THEN {"oom"} ELSE {})
         \cup (IF E.refused = 1 THEN {"refused"} ELSE {})
         \cup (IF E.sys = 1 THEN {"sys"} ELSE {})
Told == L!WholeCall(Status, Amiss)

(* what is made inside a scheduler belongs to it, and may stay there.         *)
Shared == {"wrap", "msgdisc", "conddisc", "mailbox", "conditional",
           "addfiber", "adddisc", "write", "write1"}
(* operations, not objects: what they report is said elsewhere; here only that *)
(* nothing of what they tried stays behind.                                    *)
Loose == {"write", "write1", "shortraw", "shortbox", "shortstr"}
TMake == /\ IsEvent("make") /\ ~made /\ (E.k \in Loose \/ Told)
         /\ (E.st # "ok" => E.d = 0 \/ E.k \in Shared)
         /\ made' = (E.st = "ok")
TBuild == IsEvent("build") /\ ~made /\ made' = TRUE
TFree == IsEvent("free") /\ Told /\ made' = FALSE
TNone == IsEvent("none") /\ UNCHANGED vars
(* all memory, descriptors and resources are back. *)
TEnd == /\ IsEvent("end") /\ E.blocks = 0 /\ E.live = 0 /\ E.foreign = 0
        /\ E.late = 0 /\ E.fds = 0 /\ NoDup(E.rel) /\ UNCHANGED vars

Init == TBInit /\ made = FALSE
Next == \/ More /\ (TMake \/ TBuild \/ TFree \/ TNone \/ TEnd)
        \/ TBDone(vars)
Spec == Init /\ [][Next]_<<s, l, vars>>
=============================================================================
