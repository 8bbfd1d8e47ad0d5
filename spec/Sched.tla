--------------------------------- MODULE Sched ---------------------------------
(* The disciplined fiber scheduler of rcpr/fiber.h with its management        *)
(* discipline, user disciplines, mailboxes (rcpr/message.h) and conditionals  *)
(* (rcpr/condition.h).                                                        *)
(*                                                                            *)
(* The state S is one record:                                                 *)
(*   cur   the running fiber          st    state of each fiber               *)
(*   tree  fibers the scheduler owns  held  fibers the caller owns            *)
(*   rq    run queue: who is resumed next, with which discipline, event and   *)
(*         parameter                                                          *)
(*   idle  the idle fiber, or -1      mg    fiber awaiting management events  *)
(*   pend  the call each suspended fiber is inside of                         *)
(*   mb    mailboxes by address       cd    conditionals by handle            *)
(*   ds    user disciplines           hx    unexpected-event handlers         *)
(* Out(S, o) gives, for operation o = [op, a, b, c, d] of fiber S.cur, the    *)
(* next state and what is observable: the fiber that gets control, the result *)
(* it sees, the payloads released and the discipline callbacks made.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANT NFib
Fibs == 0..NFib
NoOp == [op |-> "none", a |-> 0, b |-> 0, c |-> 0, d |-> 0]
NoDisc == [u |-> 0, n |-> 0, own |-> "none"]

S0(n) == [cur |-> 0,
          st |-> [f \in Fibs |-> IF f = 0 THEN "running"
                                 ELSE IF f <= n THEN "created" ELSE "none"],
          tree |-> {}, held |-> 1..n, rq |-> <<>>, idle |-> -1, mg |-> -1,
          pend |-> [f \in Fibs |-> NoOp], mb |-> <<>>, cd |-> <<>>,
          ds |-> [i \in 0..5 |-> NoDisc], hx |-> [f \in Fibs |-> 0]]

Ent(f, d, e, p, x) == [f |-> f, d |-> d, e |-> e, p |-> p, x |-> x]
Push(S, n) == [S EXCEPT !.rq = <<n>> \o @]
Enq(S, n) == [S EXCEPT !.rq = Append(@, n)]
FName(f) == "f" \o ToString(f)

Y(S) == [s |-> S, k |-> "yield", r |-> [st |-> "ok"], rel |-> {}, cb |-> <<>>]
Now(S, r) == [s |-> S, k |-> "now", r |-> r, rel |-> {}, cb |-> <<>>]
Err(S, e) == Now(S, [st |-> e])
Ok == [st |-> "ok"]
With(y, rel) == [y EXCEPT !.rel = rel]
Calls(y, cb) == [y EXCEPT !.cb = cb]

(* ---- the scheduler and its management discipline ------------------------ *)
DoRun(S) == IF S.cur = S.idle THEN Y(S)
            ELSE Y(Enq(S, Ent(S.cur, "int", "run", "nil", <<>>)))

Notify(S, e, f) == IF S.mg = -1 THEN S
    ELSE [Push(S, Ent(S.mg, "mgmt", e, FName(f), <<>>)) EXCEPT !.mg = -1]

DoAdd(S, a) ==
    LET s1 == [S EXCEPT !.tree = @ \cup {a}, !.held = @ \ {a}]
        s2 == Push(s1, Ent(S.cur, "int", "add", "nil", <<>>))
    IN  Y(Enq(Notify(s2, "add", a), Ent(a, "int", "add", "nil", <<>>)))

DoExit(S) == Y(Notify([S EXCEPT !.st[S.cur] = "stopped"], "stop", S.cur))

Result(S, st) == Ent(S.cur, "mgmt", "result", st, <<>>)
DoRequest(S, a, e) ==
    IF S.st[a] # "running" THEN Y(Push(S, Result(S, "ERROR_FIBER_INVALID_STATE")))
    ELSE Y(Push(Push(S, Result(S, "ok")), Ent(a, "mgmt", e, "nil", <<>>)))

Targets(S) == {f \in S.tree : f # S.cur /\ f # S.mg /\ S.st[f] = "running"}
RECURSIVE EnqAll(_, _, _)
EnqAll(S, T, e) == IF T = {} THEN S ELSE
    LET f == CHOOSE x \in T : \A y \in T : x <= y
    IN  EnqAll(Enq(S, Ent(f, "mgmt", e, "nil", <<>>)), T \ {f}, e)
DoRequestAll(S, e) == Y(Enq(EnqAll(S, Targets(S), e), Result(S, "ok")))

DoRemove(S, a) ==
    IF a \in S.tree
    THEN Now([S EXCEPT !.tree = @ \ {a}, !.held = @ \cup {a}], Ok)
    ELSE Err(S, "ERROR_RBTREE_NOT_FOUND")

(* ---- user disciplines ---------------------------------------------------- *)
Reg(S, u) == {i \in DOMAIN S.ds : S.ds[i].own = "sched" /\ S.ds[i].u = u}
DoDiscAdd(S, a) ==
    IF S.ds[a].own = "sched"
    THEN Err(S, "ERROR_FIBER_SCHEDULER_DISCIPLINE_ALREADY_OWNED")
    ELSE IF S.ds[a].u = 9 \/ Reg(S, S.ds[a].u) # {}
    THEN Err(S, "ERROR_FIBER_SCHEDULER_DUPLICATE_DISCIPLINE_ID")
    ELSE Now([S EXCEPT !.ds[a].own = "sched"], Ok)
DoDiscFind(S, u) ==
    IF u = 9 THEN Now(S, Ok)
    ELSE IF Reg(S, u) = {}
    THEN Err(S, "ERROR_FIBER_SCHEDULER_DISCIPLINE_NOT_FOUND")
    ELSE LET i == CHOOSE x \in Reg(S, u) : TRUE
         IN  Now(S, [st |-> "ok", w |-> i, cx |-> i, ss |-> 1])
(* the only discipline of the user's: the events past its last are nobody's. *)
DoPast(S, D) ==
    Calls(Err(S, "ERROR_GENERAL_INVALID_ARGUMENTS"),
          <<<<D, S.ds[D].n - 1, S.cur>>>>)
(* a scheduler without disciplines, beside this one.                          *)
Undisciplined ==
    LET no == "ERROR_FIBER_SCHEDULER_NOT_DISCIPLINED"
    IN  [st |-> "ok", ad |-> no, fi |-> no, rl |-> "ok"]
(* another disciplined scheduler: as it was made, whatever this one did, with *)
(* disciplines, mailboxes, conditionals and fibers of its own.                *)
AnotherSched ==
    [st |-> "ok", fi |-> "ERROR_FIBER_SCHEDULER_DISCIPLINE_NOT_FOUND",
     ad |-> "ERROR_FIBER_SCHEDULER_DISCIPLINE_ALREADY_OWNED", me |-> 1,
     of |-> 1, dc |-> "ok", da |-> "ok", df |-> "ok", ds |-> 1, mc |-> "ok",
     cc |-> "ok", md |-> 1, mb |-> "ok", mv |-> 1, m2 |-> "ok", mw |-> 2,
     cb |-> "ok", cv |-> 1, sn |-> "ok", rc |-> "ok", ra |-> 5, mx |-> "ok",
     fc |-> "ok", fa |-> "ok", ru |-> "ok", n |-> 1, bk |-> 1, rl |-> "ok"]
DoDiscYield(S, D, b, beh, x) ==
    LET u == "u" \o ToString(S.ds[D].u)
        p == "i" \o ToString(b + 7)
        me == Ent(S.cur, u, "c" \o ToString(100 + b), p, <<>>)
        it == Ent(x, u, "c" \o ToString(200 + b), p, <<>>)
        y == CASE beh = 0 -> Y(Push(S, me))
               [] beh = 1 -> Y(Enq(S, me))
               [] beh = 2 -> Y(S)
               [] beh = 3 -> Y(Push(Enq(S, it), me))
               [] beh = 4 -> Y(Push(Push(S, me), it))
               [] beh = 5 -> Err(S, "ERROR_GENERAL_INVALID_ARGUMENTS")
               [] beh = 6 -> Y(Enq(S, it))
    IN  IF b < 0 \/ b >= S.ds[D].n
        THEN Err(S, "ERROR_FIBER_SCHEDULER_BAD_YIELD_EVENT")
        ELSE Calls(y, <<<<D, b, S.cur>>>>)

(* ---- mailboxes ----------------------------------------------------------- *)
NF == "ERROR_RBTREE_NOT_FOUND"
IsMb(S, a) == a \in DOMAIN S.mb /\ S.mb[a].open
Mine(S, d, e, p, x) == Push(S, Ent(S.cur, d, e, p, x))
DoMbCreate(S) ==
    LET s1 == [S EXCEPT !.mb = Append(@, [open |-> TRUE, q |-> <<>>, blk |-> -1])]
    IN  Y(Mine(s1, "msg", "created", "", <<Len(s1.mb)>>))
DoMbClose(S, a) ==
    IF ~IsMb(S, a) THEN Y(Mine(S, "msg", "closed", NF, <<>>))
    ELSE With(Y(Mine([S EXCEPT !.mb[a] = [open |-> FALSE, q |-> <<>>, blk |-> -1]],
                     "msg", "closed", "ok", <<>>)),
              {S.mb[a].q[i][1] : i \in 1..Len(S.mb[a].q)})
DoSend(S, a, m, ra) ==
    IF ~IsMb(S, a) THEN With(Y(Mine(S, "msg", "sendfail", NF, <<>>)), {m})
    ELSE LET s1 == Mine(S, "msg", "sendok", "ok", <<>>) IN
         IF S.mb[a].blk # -1
         THEN Y(Push([s1 EXCEPT !.mb[a].blk = -1],
                     Ent(S.mb[a].blk, "msg", "recvok", "", <<m, ra>>)))
         ELSE Y([s1 EXCEPT !.mb[a].q = Append(@, <<m, ra>>)])
DoRecv(S, a) ==
    IF ~IsMb(S, a) THEN Y(Mine(S, "msg", "recvfail", NF, <<>>))
    ELSE IF S.mb[a].q # <<>>
    THEN Y(Mine([S EXCEPT !.mb[a].q = Tail(@)], "msg", "recvok", "",
                Head(S.mb[a].q)))
    ELSE IF S.mb[a].blk # -1
    THEN Y(Mine(S, "msg", "recvfail", "ERROR_MESSAGE_ALREADY_BLOCKED", <<>>))
    ELSE Y([S EXCEPT !.mb[a].blk = S.cur])

(* ---- conditionals -------------------------------------------------------- *)
IsCd(S, a) == a \in DOMAIN S.cd /\ S.cd[a].open
DoCdCreate(S) ==
    LET s1 == [S EXCEPT !.cd = Append(@, [open |-> TRUE, w |-> <<>>])]
    IN  Y(Mine(s1, "cond", "created", "", <<Len(s1.cd)>>))
DoCdClose(S, a) ==
    IF ~IsCd(S, a) THEN Y(Mine(S, "cond", "closed", NF, <<>>))
    ELSE Y(Mine([S EXCEPT !.cd[a] = [open |-> FALSE, w |-> <<>>]],
                "cond", "closed", "ok", <<>>))
DoWait(S, a) ==
    IF ~IsCd(S, a) THEN Y(Mine(S, "cond", "waitfail", NF, <<>>))
    ELSE Y([S EXCEPT !.cd[a].w = Append(@, S.cur)])
RECURSIVE Wake(_, _)
Wake(S, w) == IF w = <<>> THEN S
    ELSE Wake(Enq(S, Ent(Head(w), "cond", "waitok", "ok", <<>>)), Tail(w))
DoNotify(S, a, all) ==
    IF ~IsCd(S, a) THEN Y(Enq(S, Ent(S.cur, "cond", "notifyfail", NF, <<>>)))
    ELSE LET w == S.cd[a].w
             n == IF all \/ w = <<>> THEN w ELSE <<Head(w)>>
             rest == SubSeq(w, Len(n) + 1, Len(w))
         IN  Y(Enq(Wake([S EXCEPT !.cd[a].w = rest], n),
                   Ent(S.cur, "cond", "notifyok", "ok", <<>>)))

(* ---- unexpected events --------------------------------------------------- *)
HSt(h) == CASE h = 1 -> "ok" [] h = 2 -> "ERROR_GENERAL_INVALID_ARGUMENTS"
            [] OTHER -> "ERROR_PSOCK_READ_EOF"
DoUnexpected(S, o) ==
    IF S.hx[o.a] = 0 THEN Err(S, "ERROR_FIBER_NO_UNEXPECTED_HANDLER")
    ELSE Now(S, [st |-> HSt(S.hx[o.a]), h |-> S.hx[o.a], hf |-> o.a,
                 hd |-> "u1", he |-> o.b, hp |-> o.c, xd |-> "u2",
                 xe |-> o.d])

(* ---- one operation ------------------------------------------------------- *)
Do(S, o) ==
    CASE o.op \in {"run", "iyl", "yield"} -> DoRun(S)
      [] o.op = "bad" -> Err(S, "ERROR_FIBER_SCHEDULER_BAD_YIELD_EVENT")
      [] o.op = "mk" -> Now([S EXCEPT !.st[o.a] = "created",
                                      !.held = @ \cup {o.a}],
                            [st |-> "ok", null |-> 0])
      [] o.op = "add" -> DoAdd(S, o.a)
      [] o.op = "exit" -> DoExit(S)
      [] o.op = "mgmt" -> Y([S EXCEPT !.mg = S.cur])
      [] o.op = "quie" -> DoRequest(S, o.a, "quiesce")
      [] o.op = "term" -> DoRequest(S, o.a, "terminate")
      [] o.op = "quall" -> DoRequestAll(S, "quiesce")
      [] o.op = "teall" -> DoRequestAll(S, "terminate")
      [] o.op = "rm" -> DoRemove(S, o.a)
      [] o.op = "frf" -> Now([S EXCEPT !.held = @ \ {o.a},
                                       !.st[o.a] = "none"], Ok)
      [] o.op = "sta" -> Now(S, [v |-> S.st[o.a]])
      [] o.op = "idl" -> Now([S EXCEPT !.idle = o.a, !.held = @ \ {o.a}], Ok)
      [] o.op \in {"rqa", "rqn"} ->
            LET n == Ent(o.a, "u8", "c" \o ToString(o.b),
                         "i" \o ToString(o.b), <<>>)
            IN  Now(IF o.op = "rqa" THEN Enq(S, n) ELSE Push(S, n), Ok)
      [] o.op = "dsc" -> Now([S EXCEPT !.ds[o.a] =
                                [u |-> o.b, n |-> o.c, own |-> "held"]], Ok)
      [] o.op = "dad" -> DoDiscAdd(S, o.a)
      [] o.op = "dfi" -> DoDiscFind(S, o.a)
      [] o.op = "bdn" -> DoPast(S, o.a)
      [] o.op = "und" -> Now(S, Undisciplined)
      [] o.op = "oth" -> With(Now(S, AnotherSched), {900})
      [] o.op = "dfr" -> Now([S EXCEPT !.ds[o.a] = NoDisc], Ok)
      [] o.op = "dyl" -> DoDiscYield(S, o.a \div 10, o.b, o.c, o.d)
      [] o.op \in {"mdg", "cdg"} -> Now(S, [st |-> "ok", same |-> 1])
      [] o.op = "mbc" -> DoMbCreate(S)
      [] o.op = "mbx" -> DoMbClose(S, o.a)
      [] o.op = "snd" -> DoSend(S, o.a, o.b, o.c)
      [] o.op = "rcv" -> DoRecv(S, o.a)
      [] o.op = "cnc" -> DoCdCreate(S)
      [] o.op = "cnx" -> DoCdClose(S, o.a)
      [] o.op = "cnw" -> DoWait(S, o.a)
      [] o.op = "cn1" -> DoNotify(S, o.a, FALSE)
      [] o.op = "cna" -> DoNotify(S, o.a, TRUE)
      [] o.op = "uxs" -> Now([S EXCEPT !.hx[o.a] = o.b], Ok)
      [] o.op = "uxc" -> DoUnexpected(S, o)

(* what fiber n.f, inside call po, returns when resumed by entry n. *)
UnkM == [st |-> "ERROR_MESSAGE_UNKNOWN_ERROR"]
UnkC == [st |-> "ERROR_CONDITION_UNKNOWN_ERROR"]
Val(n, d, unk) == IF n.d = d THEN [st |-> n.p] ELSE unk
Res(po, n) ==
    CASE po.op \in {"run", "iyl", "add"} -> Ok
      [] po.op \in {"yield", "mgmt", "dyl"} ->
            [st |-> "ok", d |-> n.d, e |-> n.e, p |-> n.p]
      [] po.op \in {"quie", "term", "quall", "teall"} ->
            IF n.d = "mgmt" /\ n.e = "result" THEN [st |-> n.p]
            ELSE [st |-> "ERROR_FIBER_UNEXPECTED_RESUME_EVENT"]
      [] po.op = "mbc" -> IF n.d = "msg" THEN [st |-> "ok", v |-> n.x[1]]
                          ELSE UnkM
      [] po.op \in {"mbx", "snd"} -> Val(n, "msg", UnkM)
      [] po.op = "rcv" ->
            IF n.d # "msg" THEN UnkM
            ELSE IF n.e = "recvfail" THEN [st |-> n.p]
            ELSE [st |-> "ok", m |-> n.x[1], ra |-> n.x[2],
                  p2 |-> IF po.b = 1 THEN 0 ELSE n.x[1]]
      [] po.op = "cnc" -> IF n.d = "cond" THEN [st |-> "ok", v |-> n.x[1]]
                          ELSE UnkC
      [] po.op \in {"cnx", "cnw", "cn1", "cna"} -> Val(n, "cond", UnkC)
(* the receiver disposes of the message, and of a payload it did not take. *)
Dropped(po, n) == IF po.op = "rcv" /\ n.e = "recvok" /\ po.b = 0
                  THEN {n.x[1]} ELSE {}

Dispatch(S, x, o) ==
    LET s1 == [x.s EXCEPT !.pend[S.cur] = o]
        idle == Ent(s1.idle, "int", "idle", "nil", <<>>)
        n == IF s1.rq # <<>> THEN Head(s1.rq) ELSE idle
        s2 == [s1 EXCEPT !.cur = n.f, !.st[n.f] = "running",
                         !.rq = IF @ # <<>> THEN Tail(@) ELSE @]
    IN  IF s1.rq = <<>> /\ s1.idle = -1
        THEN [s |-> x.s, g |-> S.cur, k |-> "ret",
              r |-> [st |-> "ERROR_FIBER_SCHEDULER_EXHAUSTED"],
              rel |-> x.rel, cb |-> x.cb]
        ELSE IF s1.st[n.f] = "created"
        THEN [s |-> s2, g |-> n.f, k |-> "start", r |-> Ok, rel |-> x.rel,
              cb |-> x.cb]
        ELSE [s |-> s2, g |-> n.f, k |-> "ret", r |-> Res(s1.pend[n.f], n),
              rel |-> x.rel \cup Dropped(s1.pend[n.f], n), cb |-> x.cb]

Out(S, o) ==
    LET x == Do(S, o)
    IN  IF x.k = "now"
        THEN [s |-> x.s, g |-> S.cur, k |-> "ret", r |-> x.r, rel |-> x.rel,
              cb |-> x.cb]
        ELSE Dispatch(S, x, o)

(* an operation that ran out of memory: reported to the caller, which keeps  *)
(* running and keeps whatever it had; nothing else changes.                  *)
OutOom(S, o) ==
    [s |-> S, g |-> S.cur, k |-> "ret",
     r |-> IF o.op = "mk" THEN [st |-> "oom", null |-> 1]
           ELSE [st |-> "oom"],
     rel |-> IF o.op = "snd" THEN {o.b} ELSE {}, cb |-> <<>>]

(* an operation that reaches several fibers in turn may have reached the      *)
(* first k of them when it runs out of memory; the others are left as they   *)
(* were, and the caller is told either at once or in its turn.               *)
AtOnce(S, s1) == [s |-> s1, g |-> S.cur, k |-> "ret", r |-> [st |-> "oom"],
                  rel |-> {}, cb |-> <<>>]
RECURSIVE Least(_, _)
Least(T, k) == IF k = 0 THEN {} ELSE
    LET f == CHOOSE x \in T : \A y \in T : x <= y
    IN  {f} \cup Least(T \ {f}, k - 1)
OomOuts(S, o) == {OutOom(S, o)} \cup
    CASE o.op \in {"cn1", "cna"} /\ IsCd(S, o.a) ->
        LET w == S.cd[o.a].w
            n == IF o.op = "cna" \/ w = <<>> THEN Len(w) ELSE 1
            Part(k) == Wake([S EXCEPT !.cd[o.a].w = SubSeq(w, k + 1, Len(w))],
                            SubSeq(w, 1, k))
            no == Ent(S.cur, "cond", "notifyfail", "oom", <<>>)
        IN  {Dispatch(S, Y(Enq(Part(k), no)), o) : k \in 0..(n - 1)}
            \cup {AtOnce(S, Part(k)) : k \in 0..n}
      [] o.op \in {"quall", "teall"} ->
        {AtOnce(S, EnqAll(S, Least(Targets(S), k),
                          IF o.op = "quall" THEN "quiesce" ELSE "terminate")) :
            k \in 0..Cardinality(Targets(S))}
      [] OTHER -> {}

Pending(S) == UNION {{S.mb[a].q[i][1] : i \in 1..Len(S.mb[a].q)} :
                     a \in DOMAIN S.mb}

(* ---- which operations a correct user performs --------------------------- *)
InRq(S) == {S.rq[i].f : i \in 1..Len(S.rq)}
Blocked(S, f) == /\ f # S.cur /\ f # S.idle /\ f \notin InRq(S)
                 /\ S.st[f] = "running"
BlockedIn(S, f, ops) == Blocked(S, f) /\ S.pend[f].op \in ops
Others(S) == S.rq # <<>> \/ (S.idle # -1 /\ S.idle # S.cur)
MayBlock(S) == S.cur # S.idle
(* a mailbox or conditional still refers to a fiber that no longer waits.    *)
StaleMb(S, a) == LET b == S.mb[a].blk IN
    b # -1 /\ ~(BlockedIn(S, b, {"rcv"}) /\ S.pend[b].a = a)
StaleCd(S, a) == LET w == S.cd[a].w IN
    \E i \in 1..Len(w) : ~(BlockedIn(S, w[i], {"cnw"}) /\ S.pend[w[i]].a = a)
Guard(S, o) ==
    CASE o.op = "run" -> TRUE
      [] o.op = "yield" -> TRUE
      [] o.op = "iyl" -> S.cur = S.idle
      [] o.op = "bad" -> TRUE
      [] o.op = "mk" -> S.st[o.a] = "none"
      [] o.op = "add" -> o.a \in S.held /\ S.st[o.a] = "created"
      [] o.op = "exit" -> /\ S.cur # 0 /\ S.cur # S.idle
                          /\ S.rq # <<>> \/ S.mg # -1 \/ S.idle # -1
      [] o.op = "mgmt" -> MayBlock(S) /\ S.mg = -1 /\ Others(S)
      [] o.op \in {"quie", "term"} ->
            /\ o.a # S.cur /\ o.a # S.idle /\ o.a # S.mg /\ S.st[o.a] # "none"
            /\ S.st[o.a] # "running" \/ BlockedIn(S, o.a, {"dyl", "rcv", "cnw"})
      [] o.op \in {"quall", "teall"} ->
            /\ S.cur # S.idle /\ Targets(S) \cap InRq(S) = {}
            /\ S.idle \notin Targets(S)
      [] o.op = "rm" -> S.st[o.a] # "none" /\ o.a \notin InRq(S) /\ o.a # S.idle
      [] o.op = "frf" -> /\ o.a \in S.held /\ o.a \notin InRq(S)
                         /\ S.st[o.a] \in {"created", "stopped"}
      [] o.op = "sta" -> S.st[o.a] # "none"
      [] o.op = "idl" -> S.idle = -1 /\ S.st[o.a] = "created"
      [] o.op \in {"rqa", "rqn"} -> BlockedIn(S, o.a, {"dyl"})
      [] o.op = "dsc" -> S.ds[o.a].own = "none"
      [] o.op = "dad" -> S.ds[o.a].own # "none"
      [] o.op = "dfi" -> TRUE
      [] o.op = "dfr" -> S.ds[o.a].own = "held"
      [] o.op = "bdn" -> {i \in DOMAIN S.ds : S.ds[i].own = "sched"} = {o.a}
      [] o.op = "und" -> S.ds[o.a].own = "held"
      [] o.op = "oth" -> S.ds[o.a].own = "sched" /\ S.ds[o.a].u # 9
      [] o.op = "dyl" ->
            /\ S.ds[o.a \div 10].own = "sched"
            /\ S.ds[o.a \div 10].u = o.a % 10
            /\ o.c \in {3, 4, 6} => BlockedIn(S, o.d, {"dyl"})
            /\ o.c \in {2, 6} => MayBlock(S)
      [] o.op \in {"mdg", "cdg", "mbc", "cnc", "cnx", "mbx"} -> TRUE
      [] o.op = "snd" -> IsMb(S, o.a) => ~StaleMb(S, o.a)
      [] o.op = "rcv" ->
            IsMb(S, o.a) => ~StaleMb(S, o.a) /\ (S.mb[o.a].q = <<>> => MayBlock(S))
      [] o.op = "cnw" -> IsCd(S, o.a) => MayBlock(S) /\ ~StaleCd(S, o.a)
      [] o.op \in {"cn1", "cna"} -> IsCd(S, o.a) => ~StaleCd(S, o.a)
      [] o.op \in {"uxs", "uxc"} -> S.st[o.a] # "none"

(* ---- bounded design check and script generation ------------------------- *)
CONSTANTS Feat, MaxMb, MaxCd, MaxMsg, MaxDs, Sim, Depth, Fault
VARIABLES S, act
O(op, a, b, c, d) == [op |-> op, a |-> a, b |-> b, c |-> c, d |-> d]
O0(op) == O(op, 0, 0, 0, 0)
Fs == 1..NFib
Fresh == LET free == (1..MaxMsg) \ Pending(S)
         IN  IF free = {} THEN {} ELSE {CHOOSE m \in free : \A x \in free : m <= x}
(* random behaviours mostly use boxes that were created.                     *)
UpTo(n, max) == IF Sim /\ n < max THEN 1..(n + 1) ELSE 1..max
Mbs == UpTo(Len(S.mb), MaxMb)
Cds == UpTo(Len(S.cd), MaxCd)
(* long behaviours fill and then drain. *)
Filling == (Len(act) \div 340) % 2 = 0
Unstarted == {f \in Fs : f \in S.held /\ S.st[f] = "created"}
Full == {a \in DOMAIN S.mb : S.mb[a].open /\ S.mb[a].q # <<>>}
Rare(c) == Sim /\ c \in {"mbx", "cnx", "exit", "all", "idle"}
           /\ RandomElement(1..4) # 1
Cands(c) ==
    CASE c = "run" -> {O0("run")}
      [] c = "yield" -> {O0("yield")}
      [] c \in {"add", "add2"} -> {O("add", f, 0, 0, 0) : f \in Fs}
      [] c = "exit" -> {O0("exit")}
      [] c = "mgmt" -> {O0("mgmt")}
      [] c = "req" -> {O(x, f, 0, 0, 0) : x \in {"quie", "term"}, f \in Fibs}
      [] c = "all" -> {O0("quall"), O0("teall")}
      [] c = "rm" -> {O(x, f, 0, 0, 0) : x \in {"rm", "frf"}, f \in Fs}
      [] c = "sta" -> {O("sta", f, 0, 0, 0) : f \in Fibs}
      [] c = "idle" -> {O("idl", f, 0, 0, 0) : f \in Fs} \cup {O0("iyl")}
      [] c = "rq" -> {O(x, f, 3, 0, 0) : x \in {"rqa", "rqn"}, f \in Fibs}
      [] c = "bad" -> {O("bad", 99, 0, 0, 0), O("bad", -1, 0, 0, 0)}
      [] c = "disc" -> {O("dsc", i, u, n, 0) : i \in 0..(MaxDs - 1),
                              u \in {1, 2}, n \in {1, 3}}
                       \cup {O("dsc", 0, 9, 1, 0)}
                       \cup {O("dad", i, 0, 0, 0) : i \in 0..(MaxDs - 1)}
                       \cup {O("dfr", i, 0, 0, 0) : i \in 0..(MaxDs - 1)}
                       \cup {O("dfi", u, 0, 0, 0) : u \in {1, 2, 3, 9}}
      [] c = "oth" -> {O("bdn", i, 0, 0, 0) : i \in 0..(MaxDs - 1)}
                      \cup {O("und", i, 0, 0, 0) : i \in 0..(MaxDs - 1)}
                      \cup {O("oth", i, u, 0, 0) : i \in 0..(MaxDs - 1), u \in {1, 2}}
      [] c = "disc1" -> {O("dsc", 0, 1, 3, 0), O("dad", 0, 0, 0, 0)}
      [] c = "mbc1" -> IF Len(S.mb) < MaxMb THEN {O0("mbc")} ELSE {}
      [] c = "blk" -> {O("dyl", 1, 0, x, 0) : x \in {1, 2}}
                      \cup {O("dyl", 1, 0, 6, f) : f \in Fibs}
      [] c = "dyl" -> {O("dyl", i * 10 + S.ds[i].u, b, x, 0) :
                          i \in 0..(MaxDs - 1), b \in {-1, 0, 1, 2, 3},
                          x \in {0, 2, 5}}
                      \cup {O("dyl", i * 10 + S.ds[i].u, 0, 1, 0) :
                              i \in 0..(MaxDs - 1)}
                      \cup {O("dyl", i * 10 + S.ds[i].u, 0, x, f) :
                              i \in 0..(MaxDs - 1), x \in {3, 4, 6},
                              f \in Fibs}
      [] c = "mbc" -> IF Len(S.mb) < MaxMb THEN {O0("mbc")} ELSE {}
      [] c = "mbx" -> {O("mbx", a, 0, 0, 0) : a \in Mbs}
      [] c \in {"snd", "snd2"} -> {O("snd", a, m, 10 + a, 0) : a \in Mbs, m \in Fresh}
      [] c \in {"rcv", "rcv2"} -> {O("rcv", a, x, 0, 0) : a \in Mbs, x \in {0, 1}}
      [] c \in {"vom", "vom2", "vom3"} ->
            IF Len(S.mb) < MaxMb THEN {O0("mbc")}
            ELSE IF Filling
            THEN {O("snd", IF c = "vom" /\ S.cur > 0 THEN (S.cur % MaxMb) + 1 ELSE 1,
                    m, Len(act), 0) : m \in Fresh}
            ELSE {O("rcv", a, m, 0, 0) : a \in Full, m \in {0, 1}}
      [] c \in {"voc", "voc2"} ->
            IF Len(S.cd) < MaxCd THEN {O0("cnc")}
            ELSE IF Filling
            THEN IF Unstarted # {} /\ c = "voc"
                 THEN {O("add", f, 0, 0, 0) : f \in Unstarted}
                 ELSE IF Cardinality(InRq(S)) > 1
                 THEN {O("cnw", IF S.cur % 5 = 4 THEN 2 ELSE 1, 0, 0, 0)}
                 ELSE {}
            ELSE {O(x, a, 0, 0, 0) : x \in {"cn1"}, a \in 1..MaxCd}
                 \cup (IF Len(act) % 7 = 0 THEN {O("cna", 1, 0, 0, 0)} ELSE {})
      [] c = "cnc" -> IF Len(S.cd) < MaxCd THEN {O0("cnc")} ELSE {}
      [] c = "cnx" -> {O("cnx", a, 0, 0, 0) : a \in Cds}
      [] c \in {"cnw", "cnw2"} -> {O("cnw", a, 0, 0, 0) : a \in Cds}
      [] c = "cn1" -> {O("cn1", a, 0, 0, 0) : a \in Cds}
      [] c = "cna" -> {O("cna", a, 0, 0, 0) : a \in Cds}
      [] c = "ux" -> {O("uxs", f, h, 0, 0) : f \in Fibs, h \in 0..3}
                     \cup {O("uxc", f, 5, 6, 7) : f \in Fibs}
Step(C) == \E o \in C : Guard(S, o) /\ S' = Out(S, o).s
                        /\ act' = IF Sim THEN Append(act, o) ELSE <<o>>
Ids(C) == C
MCNext == IF Sim
    THEN \E c \in {RandomElement(Feat)} :
         \E C \in {{o \in Cands(c) : Guard(S, o)}} :
            Step(IF C = {} \/ Rare(c) THEN Cands("run") ELSE C)
    ELSE \E c \in Feat : Step(Cands(c))
MCInit == S = S0(NFib) /\ act = <<>>
MCSpec == MCInit /\ [][MCNext]_<<S, act>>

(* histories only differ by what suspended fibers are inside of.             *)
Canon(T) == [T EXCEPT !.pend = [f \in Fibs |->
                IF f = T.cur \/ T.st[f] # "running" THEN NoOp ELSE T.pend[f]]]
View == IF Sim THEN <<S, act>> ELSE Canon(S)
Line(T) == ToString(Canon(T))
Emit == IF Sim
    THEN (TLCGet("level") = Depth => PrintT("SIM " \o ToJson(act)))
    ELSE PrintT(ToJson([f |-> Line(S), a |-> act', t |-> Line(S')]))
EmitSim == Sim /\ TLCGet("level") = Depth => PrintT("SIM " \o ToJson(act))

(* ---- what the specification guarantees ---------------------------------- *)
(* at most one resumption is ever due to a fiber, none to the running or a   *)
(* stopped one.                                                              *)
OneResume == /\ \A i, j \in 1..Len(S.rq) : S.rq[i].f = S.rq[j].f => i = j
             /\ S.cur \notin InRq(S)
             /\ \A f \in InRq(S) : S.st[f] \in {"created", "running"}
             /\ S.st[S.cur] = "running"
(* a fiber that is neither running, due nor idle waits in exactly one place. *)
Places(f) ==
    Cardinality({a \in DOMAIN S.mb : S.mb[a].blk = f /\ ~StaleMb(S, a)})
    + Cardinality({<<a, i>> \in (DOMAIN S.cd) \X (1..(NFib + 1)) :
                    i <= Len(S.cd[a].w) /\ S.cd[a].w[i] = f
                    /\ S.pend[f].op = "cnw" /\ S.pend[f].a = a})
    + (IF S.mg = f THEN 1 ELSE 0)
Closed(f) == \/ S.pend[f].op = "rcv" /\ ~IsMb(S, S.pend[f].a)
             \/ S.pend[f].op = "cnw" /\ ~IsCd(S, S.pend[f].a)
OnePlace == \A f \in Fibs : Blocked(S, f) =>
    Places(f) = IF S.pend[f].op = "dyl" \/ Closed(f) THEN 0 ELSE 1
(* every fiber that exists has one owner. *)
Owned == /\ S.tree \cap S.held = {}
         /\ \A f \in Fs : f \in S.tree \cup S.held \/ S.st[f] = "none" \/ f = S.idle
(* a message waits in one mailbox only, and never beside a waiting receiver. *)
Mail == /\ \A a, b \in DOMAIN S.mb : \A i \in 1..Len(S.mb[a].q),
              j \in 1..Len(S.mb[b].q) :
              S.mb[a].q[i][1] = S.mb[b].q[j][1] => a = b /\ i = j
        /\ \A a \in DOMAIN S.mb :
              S.mb[a].blk # -1 /\ ~StaleMb(S, a) => S.mb[a].q = <<>>
UniqueIds == \A i, j \in DOMAIN S.ds :
    S.ds[i].own = "sched" /\ S.ds[j].own = "sched" /\ S.ds[i].u = S.ds[j].u => i = j
=============================================================================
