------------------------------ MODULE ThreadsTrace ------------------------------
(* Events of harness/threads.c judged against Threads.  W is the set of       *)
(* states the specification allows after the events so far.                   *)
EXTENDS TraceBase
VARIABLES W
Q == INSTANCE Threads WITH NT <- 24, NM <- 2, NC <- 3, EmitEdges <- FALSE,
        S <- <<>>, act <- <<>>, sigs <- <<>>
vars == <<W>>
Same == UNCHANGED W
TNone == IsEvent("none") /\ Same
Bad == [tiny |-> "ERROR_THREAD_ATTRIBUTE_SETSTACKSIZE",
        huge |-> "ERROR_THREAD_CREATE"]
(* what a platform call that fails is reported as. *)
Named == [mutex_init |-> "ERROR_THREAD_MUTEX_INIT",
          mutex_destroy |-> "ERROR_THREAD_MUTEX_DESTROY",
          mutex_lock |-> "ERROR_THREAD_MUTEX_LOCK",
          mutex_unlock |-> "ERROR_THREAD_MUTEX_UNLOCK",
          cond_init |-> "ERROR_THREAD_COND_INIT",
          cond_destroy |-> "ERROR_THREAD_COND_DESTROY",
          cond_wait |-> "ERROR_THREAD_COND_WAIT",
          attr_init |-> "ERROR_THREAD_ATTRIBUTE_INIT",
          attr_setstacksize |-> "ERROR_THREAD_ATTRIBUTE_SETSTACKSIZE",
          create |-> "ERROR_THREAD_CREATE", join |-> "ERROR_THREAD_JOIN"]
AtMaking == {"mutex_init", "cond_init", "attr_init", "attr_setstacksize", "create"}
Refusal == "status_7f000002"
TTn == /\ IsEvent("tn") /\ E.bal = 0
       /\ IF Oom THEN E.st = "oom" /\ E.null = 1 /\ Same
          ELSE IF E.pf # "" THEN E.st = Named[E.pf] /\ E.null = 1 /\ Same
          ELSE IF E.kind \in DOMAIN Bad
          THEN E.st = Bad[E.kind] /\ E.null = 1 /\ Same
          ELSE /\ E.st = "ok" /\ E.null = 0 /\ E.ran = 1 /\ E.ctx = 1 /\ E.big = 1
               /\ W' = {[w EXCEPT !.th[E.t] = "live"] : w \in
                          {x \in W : x.th[E.t] = "none"}}
               /\ W' # {}
Yield == [mutex |-> "ok", cond |-> "ok", thread |-> "status_00001267"]
(* made and released: whatever fails, nothing stays behind. *)
TMk == /\ IsEvent("mk") /\ Same /\ E.bal = 0 /\ E.live = 0 /\ E.foreign = 0
       /\ IF Oom THEN E.st = "oom" /\ E.null = 1
          ELSE IF E.pf \in AtMaking
          THEN /\ E.null = 1
               /\ E.st = IF E.refused = 1 THEN Refusal ELSE Named[E.pf]
          ELSE /\ E.st = "ok" /\ E.null = 0
               /\ E.rc = IF E.refused = 1 THEN Refusal
                         ELSE IF E.pf # "" THEN Named[E.pf] ELSE Yield[E.kind]
Ops == {"lock", "unlock", "wait", "sig1", "sigall", "exit", "join"}
(* a failed call changes nothing, but that a thread whose join failed is gone. *)
TFail == /\ E.op \in Ops /\ IsEvent(E.op) /\ E.pf # "" /\ Len(E.done) = 1
         /\ LET o == [op |-> E.op, t |-> E.t, a |-> E.a]
                d == E.done[1]
            IN /\ <<d[1], d[2], d[3]>> = <<E.t, E.op, E.a>>
               /\ IF E.pf \in DOMAIN Named THEN d[4] = Named[E.pf] ELSE d[4] # "ok"
               /\ W' = {IF E.op = "join" THEN [w EXCEPT !.th[E.t] = "none"] ELSE w :
                          w \in {x \in W : Q!Guard(x, o) /\
                                           Q!Pend(x) = SeqSet(E.pend)}}
         /\ W' # {}
TOp == /\ E.op \in Ops /\ IsEvent(E.op) /\ E.pf = ""
       /\ NoDup(E.done) /\ NoDup(E.pend)
       /\ LET o == [op |-> E.op, t |-> E.t, a |-> E.a]
              all == UNION {Q!Outs(w, o) : w \in {x \in W : Q!Guard(x, o)}}
          IN W' = {r.s : r \in {x \in all : x.done = SeqSet(E.done) /\
                                            Q!Pend(x.s) = SeqSet(E.pend)}}
       /\ W' # {}
TEnd == IsEvent("end") /\ E.live = 0 /\ E.rc = 0 /\ E.bal = 0 /\ Same
Init == TBInit /\ W = {Q!S0}
Next == \/ (More /\ (TNone \/ TTn \/ TMk \/ TOp \/ TFail \/ TEnd))
        \/ TBDone(vars)
Spec == Init /\ [][Next]_<<s, l, vars>>
=============================================================================
