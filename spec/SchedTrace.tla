------------------------------- MODULE SchedTrace -------------------------------
(* W is the set of states the recorded events so far allow: one, except after *)
(* an operation that ran out of memory half way.                              *)
EXTENDS TraceBase
CONSTANT NFib
VARIABLES W, up, hot
Q == INSTANCE Sched WITH Feat <- {}, MaxMb <- 0, MaxCd <- 0, MaxMsg <- 0,
                         MaxDs <- 0, Sim <- FALSE, Depth <- 0, Fault <- FALSE,
                         act <- <<>>, S <- <<>>
vars == <<W, up, hot>>

TSched == /\ IsEvent("sched") /\ ~up
          /\ IF Oom THEN E.st = "oom" /\ UNCHANGED vars
             ELSE E.st = "ok" /\ up' = TRUE /\ UNCHANGED <<W, hot>>
TFibs == IsEvent("fibs") /\ up /\ W' = {Q!S0(E.n)} /\ UNCHANGED <<up, hot>>
Seen(x) == /\ E.g = x.g /\ E.cur = x.g /\ E.k = x.k
           /\ IF x.k = "start" THEN TRUE ELSE E.r = x.r
           /\ Released(x.rel)
           /\ Oom \/ E.cb = x.cb
TOp == /\ Has("f") /\ up /\ IsEvent(E.op)
       /\ LET o == [op |-> E.op, a |-> E.a, b |-> E.b, c |-> E.c, d |-> E.d]
              outs == UNION {IF Oom THEN Q!OomOuts(S, o) ELSE {Q!Out(S, o)} :
                             S \in {T \in W : E.f = T.cur}}
          IN  W' = {x.s : x \in {y \in outs : Seen(y)}}
       /\ W' # {}
       /\ hot' = (hot \/ Oom)
       /\ UNCHANGED up
(* the rest of a script was written for the outcome without the failure: once *)
(* it asks for something a correct user would not do, it is not followed.     *)
TOff == /\ hot /\ up
        /\ IF Has("f")
           THEN LET o == [op |-> E.op, a |-> E.a, b |-> E.b, c |-> E.c, d |-> E.d]
                IN  \E S \in W : ~Q!Guard(S, o)
           ELSE E.op = "diverged"
        /\ l' = Len(Traces[s]) + 1 /\ s' = s /\ UNCHANGED vars
TEnd == /\ IsEvent("end") /\ E.live = 0 /\ E.st = "ok"
        /\ \E S \in W : Released(Q!Pending(S))
        /\ UNCHANGED vars
Init == TBInit /\ W = {Q!S0(0)} /\ up = FALSE /\ hot = FALSE
Next == (More /\ (TSched \/ TFibs \/ (IF hot /\ ENABLED TOff THEN TOff ELSE TOp) \/ TEnd)) \/ TBDone(vars)
Spec == Init /\ [][Next]_<<s, l, vars>>
=============================================================================
