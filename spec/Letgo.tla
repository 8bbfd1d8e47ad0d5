--------------------------------- MODULE Letgo ---------------------------------
(* Whole objects, made and let go of while memory cannot be had, or cannot be *)
(* handed back, or the system refuses a service.  An object is made of parts, *)
(* each a block of memory or something of the system's.  Making it acquires   *)
(* the parts in turn; if one cannot be had, those already there are handed    *)
(* back, every one, and the object is not made.  Letting go hands back every  *)
(* part (and may need memory of its own to do so).  A part that is refused is *)
(* gone all the same, but the status says that something was amiss: it is     *)
(* never success.                                                             *)
EXTENDS Integers, FiniteSets, TLC

CONSTANTS Parts
VARIABLES phase,    \* none, making, undoing, made, going
          have,     \* how many of the parts are held
          amiss,    \* what went wrong in this call: oom, refused, sys
          st        \* what the last call returned
lvars == <<phase, have, amiss, st>>

LInit == phase = "none" /\ have = 0 /\ amiss = {} /\ st = "ok"
Begin == phase = "none" /\ phase' = "making" /\ amiss' = {}
         /\ UNCHANGED <<have, st>>
Acquire == phase = "making" /\ have < Parts /\ have' = have + 1
           /\ UNCHANGED <<phase, amiss, st>>
Lack(why) == phase = "making" /\ have < Parts /\ phase' = "undoing"
             /\ amiss' = amiss \cup {why} /\ UNCHANGED <<have, st>>
Made == phase = "making" /\ have = Parts /\ phase' = "made" /\ st' = "ok"
        /\ UNCHANGED <<have, amiss>>
(* the part is gone, whether with a complaint or not. *)
HandBack(why) == phase \in {"undoing", "going"} /\ have > 0 /\ have' = have - 1
                 /\ amiss' = amiss \cup why /\ UNCHANGED <<phase, st>>
Over == /\ phase \in {"undoing", "going"} /\ have = 0 /\ phase' = "none"
        /\ st' \in (IF amiss = {} THEN {"ok"} ELSE amiss)
        /\ UNCHANGED <<have, amiss>>
LetGo == phase = "made" /\ phase' = "going" /\ amiss' = {}
         /\ UNCHANGED <<have, st>>
LNext == Begin \/ Acquire \/ Made \/ LetGo \/ Over
         \/ (\E why \in {"oom", "sys"} : Lack(why))
         \/ (\E why \in {{}, {"oom"}, {"refused"}, {"sys"}} : HandBack(why))
LSpec == LInit /\ [][LNext]_lvars

(* what an observer of whole calls sees. *)
WholeCall(t, w) ==   \* may a call in which w went wrong return t?
    IF t = "ok" THEN w = {} ELSE t \in w
NoneLeft == phase = "none" => have = 0
AllThere == phase = "made" => have = Parts /\ st = "ok"
Told == phase \in {"none", "made"} => WholeCall(st, amiss)
=============================================================================
