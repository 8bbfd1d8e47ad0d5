------------------------------ MODULE AsyncTrace ------------------------------
(* Events of harness/async.c judged against Async.                           *)
EXTENDS TraceBase
CONSTANTS NFib, NSock
VARIABLES A, uh
Q == INSTANCE Async WITH MaxBytes <- 0, MaxOps <- 0, Sim <- FALSE, Depth <- 0,
        Ops <- {}, full <- <<>>, sent <- <<>>, dlv <- <<>>, budget <- 0,
        act <- <<>>
V == INSTANCE Stream WITH MaxFed <- 0, LineSizes <- {}, Caps <- {},
        EmitEdges <- FALSE, fed <- <<>>, pos <- 0, pulled <- 0, act <- <<>>,
        got <- <<>>, closed <- FALSE, dead <- FALSE
vars == <<A, uh>>
Async(i) == A.sk[i].kind \in 0..3
Dgram(i) == A.sk[i].kind \in {3, 4}
Bytes(i) == A.sk[i].kind \in {0, 1}

(* making a socket asynchronous can fail in the system: no epoll, or the      *)
(* descriptor cannot be switched.  Nothing but a descriptor can be wrapped.  *)
Refusal == [x \in 0..4 |->
    CASE x = 0 -> {}
      [] x = 1 -> {"ERROR_PSOCK_EPOLL_CREATE_FAILED"}
      [] x = 4 -> {"ERROR_PSOCK_UNSUPPORTED_TYPE"}
      [] OTHER -> {"ERROR_SOCKET_UTILITIES_SET_NONBLOCK_FAILURE"}]
TOpen == /\ IsEvent("open") /\ A.sk[E.i].kind < 0
         /\ \/ /\ E.st = "ok" /\ ~Oom /\ E.x = 0
               /\ A' = [A EXCEPT !.sk[E.i] =
                           [Q!NoSock EXCEPT !.kind = E.kind, !.own = E.f]]
            \/ E.st = "oom" /\ Oom /\ A' = A
            \/ E.st \in Refusal[E.x] /\ A' = A
         /\ UNCHANGED uh
THandler == IsEvent("uh") /\ uh' = [uh EXCEPT ![E.i] = E.h] /\ UNCHANGED A
TFibs == /\ IsEvent("fibs")
         /\ A' = [Q!A0(E.n) EXCEPT !.sk = A.sk] /\ UNCHANGED uh
TStart == /\ IsEvent("start") /\ A.at[E.f] = "new" /\ Q!MaySwitch(A, E.f)
          /\ A' = Q!Switch(A, E.f) /\ UNCHANGED uh

(* everything below happens in fiber E.f. *)
B == Q!Switch(A, E.f)
Here == Q!MaySwitch(A, E.f) /\ UNCHANGED uh
O == B.op[E.f]
TCall == /\ IsEvent("call") /\ Here /\ O = Q!NoOp
         /\ LET o == [k |-> E.k, i |-> E.i, b |-> E.b, t |-> E.t, n |-> E.n,
                      v |-> E.v]
            IN Q!CallGuard(B, o) /\ A' = Q!Call(B, o)

(* system calls are judged only for being made for the right fiber; what     *)
(* they move is remembered.                                                  *)
Head1(q) == IF q = <<>> THEN <<>> ELSE <<Head(q)>>
TSys == /\ IsEvent("sys") /\ Here /\ Q!CanSys(B, E.f, E.i, E.dir)
        /\ LET k == B.sk[E.i]
           IN IF E.dir = "r"
              THEN CASE E.r = "ok" ->
                          IF Bytes(E.i)
                          THEN /\ V!IsPrefix(E.v, k.in)
                               /\ A' = Q!SysRead(B, E.f, E.i, Len(E.v))
                          ELSE k.in # <<>> /\ A' = Q!SysRead(B, E.f, E.i, 1)
                     [] E.r = "again" -> k.in = <<>> /\ ~k.closed
                                         /\ A' = Q!SysAgain(B, E.f)
                     [] E.r = "eof" -> k.in = <<>> /\ k.closed
                                       /\ A' = Q!SysFail(B, E.f, "eof")
                     [] OTHER -> k.closed /\ A' = Q!SysFail(B, E.f, "err")
              ELSE CASE E.r = "ok" ->
                          IF Bytes(E.i)
                          THEN /\ V!IsPrefix(B.acc[E.f] \o E.v,
                                             V!Enc(O.b, O.t, O.v))
                               /\ A' = Q!SysWrite(B, E.f, E.i, E.v)
                          ELSE /\ B.acc[E.f] = <<>>
                               /\ A' = Q!SysWrite(B, E.f, E.i, <<O.n>>)
                     [] E.r = "again" -> A' = Q!SysAgain(B, E.f)
                     [] OTHER -> k.closed /\ A' = Q!SysFail(B, E.f, "err")

(* returns. *)
NoHandler == "ERROR_FIBER_NO_UNEXPECTED_HANDLER"
Unsupported == "ERROR_PSOCK_UNSUPPORTED_TYPE"
Excused == /\ E.st \in Q!Excuses(B, E.f)
              \cup (IF B.why[E.f] = "mgmt" /\ uh[B.sk[O.i].own] = 0
                    THEN {NoHandler} ELSE {})
           /\ A' = Q!Fails(B, E.f)
Calm == B.why[E.f] = "none"
Got == Q!Mine(B, E.f)
RRead == LET x == V!Read(O.b, O.t, O.n, Got)
         IN CASE x.st = "ok" -> /\ Calm /\ E.st = "ok" /\ E.v = x.v
                                /\ A' = Q!Deliver(B, E.f, x.rest)
              [] x.st = "type" ->
                    /\ Calm /\ E.st = "ERROR_PSOCK_READ_BOXED_INVALID_TYPE"
                    /\ A' = Q!Deliver(B, E.f, x.rest)
              [] x.st = "size" ->
                    /\ Calm /\ E.st = "ERROR_PSOCK_READ_BOXED_INVALID_SIZE"
                    /\ A' = Q!Deliver(B, E.f, x.rest)
              [] OTHER -> Excused
RSome == IF Got # <<>>
         THEN /\ E.st = "ok" /\ Len(E.v) > 0 /\ Len(E.v) <= O.n
              /\ E.size = Len(E.v) /\ V!IsPrefix(E.v, Got)
              /\ A' = Q!Deliver(B, E.f, V!Drop(Got, Len(E.v)))
         ELSE /\ \/ B.again[E.f] /\ E.st = "ERROR_PSOCK_READ_WOULD_BLOCK"
                 \/ B.fail[E.f] # "no" /\ E.st = "ok" /\ E.size = 0
                 \/ B.fail[E.f] # "no" /\ E.st \in Q!EndCodes
              /\ A' = Q!Fails(B, E.f)
(* an error ends a line as the end of the stream does: what there is of it   *)
(* is delivered first.                                                       *)
Cut == \/ B.fail[E.f] # "no" \/ B.why[E.f] \notin {"none", "mgmt"}
       \/ B.why[E.f] = "mgmt" /\ uh[B.sk[O.i].own] = 0
(* a buffered reader that once met an end remembers it, and may answer a     *)
(* later line from what it has left without asking again.                    *)
RLine == \E c \in {Cut} \cup {B.sk[O.i].cut} : \E x \in V!Line(O.n, Got, c) :
            CASE x.st \in {"ok", "trunc"} ->
                   /\ (Calm \/ Cut) /\ E.v = x.v /\ E.size = x.size
                   /\ E.st = IF x.st = "ok" THEN "ok"
                             ELSE "ERROR_PSOCK_BR_READ_LINE_TRUNCATED"
                   /\ LET d == Q!Deliver(B, E.f, x.rest)
                      IN A' = [d EXCEPT !.sk[O.i].cut = @ \/ Cut]
              [] c -> E.st \in Q!EndCodes /\ A' = Q!Fails(B, E.f)
              [] OTHER -> Excused
RWrite == IF Q!Enough(B, E.f) THEN Calm /\ E.st = "ok" /\ A' = Q!Done(B, E.f)
          ELSE Excused
RBlock == IF ~Async(O.i) THEN E.st = Unsupported /\ A' = Q!Done(B, E.f)
          ELSE IF Calm /\ ~B.again[E.f]
          THEN E.st = "ok" /\ A' = Q!Done(B, E.f)
          ELSE Excused
RAccept == IF Got # <<>>
           THEN /\ E.st = "ok" /\ E.id = Head(Got)
                /\ A' = Q!Deliver(B, E.f, Tail(Got))
           ELSE Excused
RSend == IF ~Dgram(O.i) THEN E.st = Unsupported /\ A' = Q!Done(B, E.f)
         ELSE IF Q!Enough(B, E.f)
         THEN Calm /\ E.st = "ok" /\ E.still = 1 /\ A' = Q!Done(B, E.f)
         ELSE Excused
RReceive == IF ~Dgram(O.i) THEN E.st = Unsupported /\ A' = Q!Done(B, E.f)
            ELSE IF Got # <<>>
            THEN /\ IF Head(Got) = 0 THEN E.st = "ERROR_PSOCK_READ_GENERAL"
                    ELSE E.st = "ok" /\ E.id = Head(Got)
                 /\ A' = Q!Deliver(B, E.f, Tail(Got))
            ELSE Excused
TRet == /\ IsEvent("ret") /\ Here /\ O.k = E.k
        /\ CASE E.k = "r" -> RRead
             [] E.k = "rr" -> RSome
             [] E.k = "rl" -> RLine
             [] E.k = "w" -> RWrite
             [] E.k \in {"rblk", "wblk"} -> RBlock
             [] E.k = "ac" -> RAccept
             [] E.k = "sd" -> RSend
             [] E.k = "rd" -> RReceive
             [] OTHER -> E.st = "ok" /\ A' = Q!Done(B, E.f)

(* a management event reached a fiber inside an I/O call: the socket's       *)
(* owner's handler sees it, once, and decides.                               *)
THnd == /\ IsEvent("hnd") /\ Here /\ B.why[E.f] = "mgmt" /\ O # Q!NoOp
        /\ LET own == B.sk[O.i].own
           IN E.hf = own /\ E.h = uh[own] /\ E.h # 0
        /\ E.mg = 1 /\ E.x = (IF Q!Dir(O.k) = "r" THEN 0 ELSE 1)
        /\ A' = [B EXCEPT !.why[E.f] =
                    CASE E.h = 1 -> "none"
                      [] E.h = 2 -> "ERROR_GENERAL_INVALID_ARGUMENTS"
                      [] OTHER -> "ERROR_PSOCK_READ_EOF"]

(* the scheduler waits for sockets only when nothing can run, and is told of *)
(* every socket somebody waits for.                                          *)
TPoll == /\ IsEvent("poll") /\ Q!MayPoll(A)
         /\ (Q!Woken(Q!Left(A), SeqSet(E.rd), SeqSet(E.wr)) # {} => E.n > 0)
         /\ A' = Q!Poll(A, SeqSet(E.rd), SeqSet(E.wr)) /\ UNCHANGED uh

(* a signal interrupts the wait, which says nothing about any socket.        *)
TIntr == IsEvent("intr") /\ Q!MayPoll(A) /\ A' = Q!Left(A) /\ UNCHANGED uh

(* the system refuses to watch a socket: the call that needs it fails, and   *)
(* nothing else.                                                             *)
TCtl == /\ IsEvent("ctl") /\ Here /\ E.i = O.i /\ O.k \in Q!ReadOps \cup Q!WriteOps
        /\ B.why[E.f] = "none" /\ B.again[E.f] /\ ~Q!Blocked(B, E.f, O.i, Q!Dir(O.k))
        /\ A' = [B EXCEPT !.why[E.f] = "ERROR_PSOCK_EPOLL_CTL_FAILED"]

(* a socket is let go: its descriptor closes with it, not before.            *)
TLetGo == /\ IsEvent("cl") /\ E.st = "ok" /\ E.open = 0 /\ E.early = 0
          /\ Q!MaySwitch(A, E.f) /\ A' = [B EXCEPT !.sk[E.i] = Q!NoSock]
          /\ UNCHANGED uh

(* where method tables are checked: a wrapper or what it wraps, with a table *)
(* that is not the program's, does nothing (no system call either); letting  *)
(* go of the wrapper leaves what it wraps, if that is the forged one.        *)
BadTable == "ERROR_GENERAL_BAD_VTABLE"
TForged == /\ IsEvent("fg") /\ Here /\ O = Q!NoOp
           /\ E.st = BadTable /\ E.fc = 0 /\ E.same = 1 /\ A' = B
TForgedGo == /\ IsEvent("fcl") /\ Here /\ O = Q!NoOp
             /\ E.st = BadTable /\ E.fc = 0 /\ E.early = 0
             /\ E.then = 0 /\ E.open = 0
             /\ A' = [B EXCEPT !.sk[E.i] = Q!NoSock]

(* the other ends. *)
Feeds(v) == A' = [A EXCEPT !.sk[E.i].in = @ \o v] /\ UNCHANGED uh
TFeed == IsEvent("pf") /\ Feeds(E.v)
TConn == IsEvent("pk") /\ Feeds(<<E.id>>)
TPass == IsEvent("ps") /\ Feeds(<<E.id>>)
TClose == IsEvent("pc") /\ A' = [A EXCEPT !.sk[E.i].closed = TRUE]
          /\ UNCHANGED uh
TFill == IsEvent("pfill") /\ UNCHANGED vars
TDrain == /\ IsEvent("pd") /\ E.same = 1 /\ E.v = A.sk[E.i].wire
          /\ A' = [A EXCEPT !.sk[E.i].wire = <<>>] /\ UNCHANGED uh
TTake == /\ IsEvent("pg")
         /\ LET w == A.sk[E.i].wire
            IN IF w = <<>> THEN E.id = -1 /\ UNCHANGED A
               ELSE /\ E.id = Head(w)
                    /\ A' = [A EXCEPT !.sk[E.i].wire = Tail(w)]
         /\ UNCHANGED uh

(* fibers that were inside a read may still hold the memory it allocated.    *)
TEnd == /\ IsEvent("end") /\ E.rc = 0 /\ E.fds = 0 /\ E.left = 0
        /\ E.live <= Cardinality({f \in Q!Fibs : A.op[f].k = "r"})
        /\ UNCHANGED vars

Init == TBInit /\ A = Q!A0(0) /\ uh = [f \in Q!Fibs |-> 0]
Next == \/ /\ More
           /\ \/ TOpen \/ THandler \/ TFibs \/ TStart \/ TCall \/ TSys \/ TRet
              \/ THnd \/ TPoll \/ TFeed \/ TConn \/ TPass \/ TClose \/ TFill
              \/ TDrain \/ TTake \/ TIntr \/ TCtl \/ TLetGo \/ TEnd
              \/ TForged \/ TForgedGo
        \/ TBDone(vars)
Spec == Init /\ [][Next]_<<s, l, vars>>
=============================================================================
