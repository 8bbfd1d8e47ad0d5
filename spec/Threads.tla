--------------------------------- MODULE Threads ---------------------------------
(* Threads, mutexes and condition variables (rcpr/thread.h).  S is a record:  *)
(*   th  : thread -> "none" | "live" | "exited"      val : its exit status     *)
(*   own : mutex -> the thread holding it, or -1                               *)
(*   lk  : {<<t, m>>} blocked acquiring           wq : {<<t, c>>} waiting      *)
(*   rl  : {<<t, c>>} signalled, re-acquiring     jn : threads being joined    *)
(* Outs(S, o) is every [s, done] that operation o of thread o.t can lead to:   *)
(* which waiter a signal picks and who gets a freed mutex is not specified.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NT, NM, NC, EmitEdges
Ts == 0..NT - 1
Ms == 0..NM - 1
Cs == 0..NC - 1
MOf(c) == c % 2
S0 == [th |-> [t \in Ts |-> "none"], val |-> [t \in Ts |-> 0],
       own |-> [m \in Ms |-> -1], lk |-> {}, wq |-> {}, rl |-> {}, jn |-> {}]

Cand(S, m) == {<<x[1], "lock", m>> : x \in {y \in S.lk : y[2] = m}} \cup
              {<<x[1], "wait", x[2]>> : x \in {y \in S.rl : MOf(y[2]) = m}}
Grant(S, m, g) == [S EXCEPT !.own[m] = g[1],
                            !.lk = IF g[2] = "lock" THEN @ \ {<<g[1], m>>} ELSE @,
                            !.rl = IF g[2] = "wait" THEN @ \ {<<g[1], g[3]>>} ELSE @]
(* a free mutex goes to somebody who wants it. *)
Settle(S, m, done) ==
    IF S.own[m] # -1 \/ Cand(S, m) = {} THEN {[s |-> S, done |-> done]}
    ELSE {[s |-> Grant(S, m, g), done |-> done \cup {<<g[1], g[2], g[3], "ok">>}] :
            g \in Cand(S, m)}

Waiters(S, c) == {x \in S.wq : x[2] = c}
Pick(S, W) == [S EXCEPT !.wq = @ \ W, !.rl = @ \cup W]
DoneJoin(S, t) == [S EXCEPT !.th[t] = "none", !.jn = @ \ {t}]

(* o = [op, t, a] *)
Outs(S, o) ==
    LET fin == {<<o.t, o.op, o.a, "ok">>}
        m == MOf(o.a)
    IN CASE o.op = "lock" ->
              Settle([S EXCEPT !.lk = @ \cup {<<o.t, o.a>>}], o.a, {})
         [] o.op = "unlock" -> Settle([S EXCEPT !.own[o.a] = -1], o.a, fin)
         [] o.op = "wait" ->
              Settle([S EXCEPT !.own[m] = -1, !.wq = @ \cup {<<o.t, o.a>>}], m, {})
         [] o.op = "sig1" ->
              IF Waiters(S, o.a) = {} THEN {[s |-> S, done |-> fin]}
              ELSE {[s |-> Pick(S, {x}), done |-> fin] : x \in Waiters(S, o.a)}
         [] o.op = "sigall" -> {[s |-> Pick(S, Waiters(S, o.a)), done |-> fin]}
         [] o.op = "exit" ->
              LET s1 == [S EXCEPT !.th[o.t] = "exited", !.val[o.t] = o.a] IN
              IF o.t \in S.jn
              THEN {[s |-> DoneJoin(s1, o.t),
                     done |-> fin \cup {<<o.t, "join", o.a, "ok">>}]}
              ELSE {[s |-> s1, done |-> fin]}
         [] o.op = "join" ->
              IF S.th[o.t] = "exited"
              THEN {[s |-> DoneJoin(S, o.t),
                     done |-> {<<o.t, "join", S.val[o.t], "ok">>}]}
              ELSE {[s |-> [S EXCEPT !.jn = @ \cup {o.t}], done |-> {}]}
Pend(S) == {<<x[1], "lock", x[2]>> : x \in S.lk} \cup
           {<<x[1], "wait", x[2]>> : x \in S.wq \cup S.rl} \cup
           {<<t, "join", t>> : t \in S.jn}

(* ---- which operations make sense ------------------------------------------*)
Blocked(S, t) == \E x \in S.lk \cup S.wq \cup S.rl : x[1] = t
Idle(S, t) == S.th[t] = "live" /\ ~Blocked(S, t)
Holds(S, t) == {m \in Ms : S.own[m] = t}
Guard(S, o) ==
    CASE o.op = "lock" -> Idle(S, o.t) /\ \A m \in Holds(S, o.t) : m < o.a
      [] o.op = "unlock" -> Idle(S, o.t) /\ S.own[o.a] = o.t
      [] o.op \in {"wait", "sig1", "sigall"} ->
            /\ Idle(S, o.t) /\ S.own[MOf(o.a)] = o.t
            /\ o.op = "wait" => \A m \in Holds(S, o.t) : m <= MOf(o.a)
      [] o.op = "exit" -> Idle(S, o.t) /\ Holds(S, o.t) = {}
      [] o.op = "join" -> S.th[o.t] # "none" /\ o.t \notin S.jn

(* ---- the bounded design ---------------------------------------------------*)
VARIABLES S, act, sigs
vars == <<S, act, sigs>>
O(op, t, a) == [op |-> op, t |-> t, a |-> a]
AllOps == {O(op, t, a) : op \in {"lock", "unlock"}, t \in Ts, a \in Ms} \cup
          {O(op, t, a) : op \in {"wait", "sig1", "sigall"}, t \in Ts, a \in Cs} \cup
          {O("exit", t, 5 + t) : t \in Ts} \cup {O("join", t, t) : t \in Ts}
Rank(s, t, m) == Cardinality({u \in Ts : u < t /\ Idle(s, u) /\
                                 \A j \in Holds(s, u) : j < m})
Label(s, o) == CASE o.op = "lock" -> <<"lk", o.a, Rank(s, o.t, o.a)>>
                 [] o.op = "unlock" -> <<"ul", o.a>>
                 [] o.op = "wait" -> <<"wt", o.a>>
                 [] o.op = "sig1" -> <<"s1", o.a>>
                 [] o.op = "sigall" -> <<"sa", o.a>>
                 [] o.op = "exit" -> <<"ex", Rank(s, o.t, 0), o.a>>
                 [] o.op = "join" -> <<"jn", o.t>>
Init == /\ S = [S0 EXCEPT !.th = [t \in Ts |-> "live"]]
        /\ act = <<>> /\ sigs = [c \in Cs |-> 0]
Next == \E o \in AllOps : /\ Guard(S, o)
          /\ \E r \in Outs(S, o) :
               /\ S' = r.s
               /\ act' = Label(S, o)
               /\ sigs' = [c \in Cs |->
                    (IF o.op \in {"sig1", "sigall"} /\ o.a = c
                     THEN sigs[c] + Cardinality(S.wq \ r.s.wq) ELSE sigs[c])
                    - Cardinality({d \in r.done : d[2] = "wait" /\ d[3] = c})]
Spec == Init /\ [][Next]_vars
(* the mutex is held by at most one thread, which is inside no blocking call  *)
(* on it; nobody waits for a free mutex.                                      *)
Excl == \A m \in Ms : S.own[m] # -1 => /\ S.th[S.own[m]] = "live"
                                       /\ <<S.own[m], m>> \notin S.lk
Busy == \A m \in Ms : S.own[m] = -1 => Cand(S, m) = {}
OneCall == \A t \in Ts : Cardinality({x \in S.lk \cup S.wq \cup S.rl : x[1] = t}) <= 1
(* a waiter returns only for a signal sent while it waited, one per signal;   *)
(* a signal sent while somebody waits is never lost.                          *)
NoLost == \A c \in Cs : sigs[c] = Cardinality({x \in S.rl : x[2] = c})
(* nobody stays blocked on a mutex for ever unless its holder does. *)
Joined == \A t \in S.jn : S.th[t] = "live"
View == S
EmitE == EmitEdges => PrintT(ToJson([f |-> S, a |-> act', t |-> S']))
=============================================================================
