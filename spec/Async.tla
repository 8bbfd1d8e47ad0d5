--------------------------------- MODULE Async ---------------------------------
(* Asynchronous psocks (rcpr/psock.h) on a fiber scheduler: fibers that read, *)
(* write, accept and pass descriptors on non-blocking sockets and are         *)
(* suspended, alone, until their socket is ready.                             *)
(*                                                                            *)
(* The state A:                                                               *)
(*   cur    the running fiber, or Nobody while control is being handed over   *)
(*   rq     run queue; each element a set of fibers that were made runnable   *)
(*          together (by one poll), in any order                              *)
(*   op     the call each fiber is inside of                                  *)
(*   at     where each fiber is: "new", "run", "ready", "wait", "done"        *)
(*   again  the fiber's last attempt said "would block"                       *)
(*   why    what made a runnable fiber runnable: "io", "mgmt", "q"            *)
(*   acc    bytes written so far by the fiber's call                          *)
(*   sec    the fiber's call found another one inside of the same direction   *)
(*   fail   the fiber's call met the end of the stream or an error            *)
(*   sk     sockets: kind, in (bytes sent by the peer and not yet read),      *)
(*          got (read and not yet delivered), wire (written, not yet drained  *)
(*          by the peer), closed (by the peer), cut (its buffered reader met  *)
(*          an end and remembers it), rdead/wdead (a call failed),            *)
(*          own (fiber whose handler sees unexpected events)                  *)
(* Descriptor-passing sockets and listeners use in and wire as queues of      *)
(* descriptor and connection identities.                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
V == INSTANCE Stream WITH MaxFed <- 0, LineSizes <- {}, Caps <- {},
        EmitEdges <- FALSE, fed <- <<>>, pos <- 0, pulled <- 0, act <- <<>>,
        got <- <<>>, closed <- FALSE, dead <- FALSE

CONSTANT NFib, NSock
Fibs == 0..NFib
Socks == 0..NSock
Nobody == -1
Kinds == [stream |-> 0, br |-> 1, listen |-> 2, dgram |-> 3, sdgram |-> 4,
          sstream |-> 5]
NoOp == [k |-> "none", i |-> 0, b |-> 0, t |-> 0, n |-> 0, v |-> <<>>]
NoSock == [kind |-> -1, in |-> <<>>, got |-> <<>>, wire |-> <<>>,
           closed |-> FALSE, cut |-> FALSE, rdead |-> FALSE, wdead |-> FALSE,
           own |-> 0]

A0(n) == [cur |-> 0, rq |-> IF n = 0 THEN <<>> ELSE [f \in 1..n |-> {f}],
          op |-> [f \in Fibs |-> NoOp],
          at |-> [f \in Fibs |-> IF f = 0 THEN "run"
                                 ELSE IF f <= n THEN "new" ELSE "done"],
          again |-> [f \in Fibs |-> FALSE], why |-> [f \in Fibs |-> "none"],
          sec |-> [f \in Fibs |-> FALSE], acc |-> [f \in Fibs |-> <<>>], fail |-> [f \in Fibs |-> "no"],
          sk |-> [i \in Socks |-> NoSock]]

IsStream(A, i) == A.sk[i].kind \in {0, 1}
ReadOps == {"r", "rr", "rl", "rblk", "ac", "rd"}
WriteOps == {"w", "wblk", "sd"}
Dir(k) == IF k \in ReadOps THEN "r" ELSE "w"
InOp(A, f, i, d) == A.op[f].k \in ReadOps \cup WriteOps /\ A.op[f].i = i
                    /\ Dir(A.op[f].k) = d
Other(A, f, i, d) == \E g \in Fibs : g # f /\ InOp(A, g, i, d)
Waits(A, f, i, d) == A.at[f] = "wait" /\ InOp(A, f, i, d)
Blocked(A, f, i, d) == \E g \in Fibs : g # f /\ Waits(A, g, i, d)

(* ---- what a call needs ---------------------------------------------------*)
NoEnd(e) == e = "no"
Mine(A, f) == IF A.sec[f] THEN <<>> ELSE A.sk[A.op[f].i].got
Enough(A, f) ==
    LET o == A.op[f]
        q == Mine(A, f)
    IN CASE o.k = "r" -> V!Read(o.b, o.t, o.n, q).st # "more"
         [] o.k = "rl" -> \A x \in V!Line(o.n, q, ~NoEnd(A.fail[f])) : x.st # "more"
         [] o.k = "rr" -> TRUE
         [] o.k = "w" -> A.acc[f] = V!Enc(o.b, o.t, o.v)
         [] o.k \in {"ac", "rd"} -> q # <<>>
         [] o.k = "sd" -> A.acc[f] # <<>>
         [] OTHER -> FALSE

(* ---- handing over control ------------------------------------------------*)
(* a fiber is suspended only in a call that was told it would block and that *)
(* has not got what it needs.                                                *)
MayLeave(A) ==
    IF A.cur = Nobody THEN TRUE
    ELSE LET f == A.cur
             o == A.op[f]
         IN /\ o.k \in (ReadOps \cup WriteOps) \ {"rr"}
            /\ A.again[f] /\ NoEnd(A.fail[f]) /\ ~Enough(A, f)
            /\ A.why[f] = "none" /\ ~Blocked(A, f, o.i, Dir(o.k))
Left(A) == IF A.cur = Nobody THEN A
           ELSE [A EXCEPT !.at[A.cur] = "wait", !.cur = Nobody]
MaySwitch(A, f) ==
    IF A.cur = f THEN TRUE
    ELSE MayLeave(A) /\ A.rq # <<>> /\ f \in Head(A.rq)
Enter(A, f) == [A EXCEPT !.cur = f, !.at[f] = "run",
    !.rq = IF Head(@) = {f} THEN Tail(@) ELSE <<Head(@) \ {f}>> \o Tail(@),
    !.again[f] = (A.why[f] = "mgmt"),
    !.why[f] = IF A.why[f] = "mgmt" THEN "mgmt" ELSE "none"]
Switch(A, f) == IF A.cur = f THEN A ELSE Enter(Left(A), f)

(* ---- calls ---------------------------------------------------------------*)
CallGuard(A, o) ==
    IF o.k \in {"y", "x"} THEN TRUE
    ELSE IF o.k = "q" THEN A.at[o.i] = "wait"
    ELSE /\ A.sk[o.i].kind >= 0
         /\ (o.k = "rr" \/ A.sk[o.i].kind # 0) => ~(o.k \in ReadOps
                /\ \E g \in Fibs : InOp(A, g, o.i, "r"))
         /\ (o.k \in ReadOps /\ \E g \in Fibs : InOp(A, g, o.i, "r"))
               => A.sk[o.i].in = <<>> /\ ~A.sk[o.i].closed
Call(A, o) ==
    LET f == A.cur
        a == [A EXCEPT !.op[f] = o,
                       !.sec[f] = o.k \in ReadOps \cup WriteOps
                                  /\ Other(A, f, o.i, Dir(o.k)), !.acc[f] = <<>>, !.fail[f] = "no",
                       !.again[f] = (o.k \in {"rblk", "wblk"}),
                       !.why[f] = "none"]
    IN CASE o.k = "y" -> [a EXCEPT !.cur = Nobody, !.at[f] = "ready",
                                   !.rq = Append(@, {f}), !.why[f] = "q"]
         [] o.k = "x" -> [a EXCEPT !.cur = Nobody, !.at[f] = "done",
                                   !.op[f] = NoOp]
         [] o.k = "q" -> [a EXCEPT !.cur = Nobody, !.at[f] = "ready",
                                   !.at[o.i] = "ready", !.why[o.i] = "mgmt",
                                   !.why[f] = "q",
                                   !.rq = <<{o.i}, {f}>> \o @]
         [] OTHER -> a

(* ---- system calls made for fiber f on socket i ---------------------------*)
CanSys(A, f, i, d) == InOp(A, f, i, d) /\ A.why[f] = "none"
SysAgain(A, f) == [A EXCEPT !.again[f] = TRUE]
SysFail(A, f, x) == [A EXCEPT !.fail[f] = x, !.again[f] = FALSE]
SysRead(A, f, i, n) ==
    [A EXCEPT !.sk[i].got = @ \o V!Take(A.sk[i].in, n),
              !.sk[i].in = V!Drop(@, n), !.again[f] = FALSE]
SysWrite(A, f, i, v) ==
    [A EXCEPT !.sk[i].wire = @ \o v, !.acc[f] = @ \o v, !.again[f] = FALSE]

(* ---- returns -------------------------------------------------------------*)
Out(st, v, size, rest) == [st |-> st, v |-> v, size |-> size, rest |-> rest]
EndCodes == {"ERROR_PSOCK_READ_INVALID_SIZE", "ERROR_PSOCK_READ_EOF",
             "ERROR_PSOCK_READ_GENERAL", "ERROR_PSOCK_RECVMSG_FAILED",
             "ERROR_PSOCK_ACCEPT_GENERAL"}
WEndCodes == {"ERROR_PSOCK_WRITE_GENERAL", "ERROR_PSOCK_WRITE_EOF",
              "ERROR_PSOCK_WRITE_INVALID_SIZE", "ERROR_PSOCK_SENDMSG_FAILED"}
(* statuses a call that cannot be completed may report.                      *)
Excuses(A, f) ==
    LET o == A.op[f]
        d == Dir(o.k)
    IN (IF ~NoEnd(A.fail[f]) THEN (IF d = "r" THEN EndCodes ELSE WEndCodes)
        ELSE {})
       \cup (IF A.again[f] /\ Blocked(A, f, o.i, d)
             THEN {"ERROR_PSOCK_DOUBLE_BLOCK_UNSUPPORTED"} ELSE {})
       \cup (IF A.why[f] \notin {"none", "mgmt"} THEN {A.why[f]} ELSE {})
Done(A, f) == [A EXCEPT !.sec[f] = FALSE, !.op[f] = NoOp, !.again[f] = FALSE, !.why[f] = "none",
                        !.acc[f] = <<>>, !.fail[f] = "no"]
(* (a second caller has nothing of its own to take from.)                    *)
Deliver(A, f, rest) ==
    Done(IF A.sec[f] THEN A ELSE [A EXCEPT !.sk[A.op[f].i].got = rest], f)
Fails(A, f) ==
    LET o == A.op[f] IN
    Done(IF o.k \in {"rblk", "wblk", "rr", "ac", "rd", "sd"} THEN A
         ELSE IF Dir(o.k) = "r"
         THEN [A EXCEPT !.sk[o.i].rdead = @ \/ ~NoEnd(A.fail[f])
                            \/ Mine(A, f) # <<>> \/ A.why[f] # "none"]
         ELSE [A EXCEPT !.sk[o.i].wdead = @ \/ ~NoEnd(A.fail[f])
                            \/ A.acc[f] # <<>> \/ A.why[f] # "none"], f)

(* ---- waiting -------------------------------------------------------------*)
Woken(A, rd, wr) == {f \in Fibs : A.at[f] = "wait"
    /\ A.op[f].i \in (IF Dir(A.op[f].k) = "r" THEN rd ELSE wr)}
MayPoll(A) == MayLeave(A) /\ A.rq = <<>>
Poll(A, rd, wr) ==
    LET a == Left(A)
        w == Woken(a, rd, wr)
    IN IF w = {} THEN a
       ELSE [a EXCEPT !.rq = <<w>>,
                !.at = [f \in Fibs |-> IF f \in w THEN "ready" ELSE a.at[f]],
                !.why = [f \in Fibs |-> IF f \in w THEN "io" ELSE a.why[f]]]

(* ---- the bounded design -------------------------------------------------- *)
(* Two or three fibers, two sockets (a stream and a listener, or a stream and *)
(* a buffered reader), one byte alphabet with counters: the k-th byte is k,   *)
(* so order and duplication show.                                             *)
CONSTANTS MaxBytes, MaxOps, Sim, Depth, Ops
VARIABLES A, full, sent, dlv, budget, act
mvars == <<A, full, sent, dlv, budget, act>>
MC(i) == IF i = 1 THEN 1 ELSE 0     \* socket 1 has a buffered reader
MCInit == /\ A = [A0(NFib) EXCEPT !.sk = [i \in Socks |->
                      [NoSock EXCEPT !.kind = MC(i)]]]
          /\ full = [i \in Socks |-> FALSE] /\ sent = [i \in Socks |-> 0]
          /\ dlv = [i \in Socks |-> <<>>] /\ budget = MaxOps /\ act = <<>>
Note(x) == act' = IF Sim THEN Append(act, x) ELSE act
Quiet == act' = act
O(k, i, n, v) == [k |-> k, i |-> i, b |-> 0, t |-> 10, n |-> n, v |-> v]
Cand(x) ==
    CASE x = "r" -> {O("r", i, n, <<>>) : i \in Socks, n \in 1..2}
      [] x = "rr" -> {O("rr", i, 2, <<>>) : i \in Socks}
      [] x = "w" -> {O("w", i, 0, <<1, 2>>) : i \in Socks}
      [] x = "rblk" -> {O("rblk", i, 0, <<>>) : i \in Socks}
      [] x = "wblk" -> {O("wblk", i, 0, <<>>) : i \in Socks}
      [] x = "y" -> {O("y", 0, 0, <<>>)}
      [] x = "x" -> {O("x", 0, 0, <<>>)}
      [] x = "q" -> {O("q", f, 0, <<>>) : f \in Fibs}
Fit(x) == {o \in Cand(x) : CallGuard(A, o)
                 /\ (o.k \in ReadOps => ~A.sk[o.i].rdead)
                 /\ (o.k \in WriteOps => ~A.sk[o.i].wdead) /\ (o.k = "x" => A.cur # 0)
                           /\ (o.k = "q" => o.i # A.cur)}
MCall == /\ A.cur # Nobody /\ A.op[A.cur] = NoOp /\ budget > 0
         /\ \E x \in (IF Sim THEN {RandomElement({x \in Ops : Fit(x) # {}})}
                     ELSE Ops) :
            \E o \in Fit(x) :
              /\ A' = Call(A, o) /\ budget' = budget - 1 /\ Note(<<"c", o>>)
         /\ UNCHANGED <<full, sent, dlv>>
Need(f) == LET o == A.op[f] IN
    IF o.k = "r" THEN o.n - Len(A.sk[o.i].got) ELSE 2
MSys == /\ A.cur # Nobody
        /\ LET f == A.cur
               o == A.op[f]
               i == o.i
           IN /\ o.k \in {"r", "rr", "w"} /\ CanSys(A, f, i, Dir(o.k))
              /\ NoEnd(A.fail[f]) /\ ~A.again[f] /\ (o.k = "rr" => A.sk[i].got = <<>>)
              /\ o.k # "rr" => ~Enough(A, f)
              /\ IF Dir(o.k) = "r"
                 THEN IF A.sk[i].in # <<>>
                      THEN \E n \in 1..V!Min(Len(A.sk[i].in), Need(f)) :
                              A' = SysRead(A, f, i, n)
                      ELSE IF A.sk[i].closed THEN A' = SysFail(A, f, "eof")
                      ELSE A' = SysAgain(A, f)
                 ELSE IF A.sk[i].closed THEN A' = SysFail(A, f, "err")
                      ELSE IF full[i] THEN A' = SysAgain(A, f)
                      ELSE \E n \in 1..(2 - Len(A.acc[f])) :
                              A' = SysWrite(A, f, i,
                                       SubSeq(o.v, Len(A.acc[f]) + 1,
                                              Len(A.acc[f]) + n))
        /\ Quiet /\ UNCHANGED <<full, sent, dlv, budget>>
MRet == /\ A.cur # Nobody
        /\ LET f == A.cur
               o == A.op[f]
               q == A.sk[o.i].got
           IN \/ /\ o.k = "r" /\ Enough(A, f)
                 /\ A' = Deliver(A, f, V!Drop(q, o.n))
                 /\ dlv' = [dlv EXCEPT ![o.i] = @ \o V!Take(q, o.n)]
              \/ /\ o.k = "rr" /\ q # <<>>
                 /\ A' = Deliver(A, f, <<>>)
                 /\ dlv' = [dlv EXCEPT ![o.i] = @ \o q]
              \/ o.k = "rr" /\ q = <<>> /\ (A.again[f] \/ ~NoEnd(A.fail[f]))
                 /\ A' = Fails(A, f) /\ UNCHANGED dlv
              \/ o.k = "w" /\ Enough(A, f) /\ A' = Done(A, f) /\ UNCHANGED dlv
              \/ o.k \in {"rblk", "wblk"} /\ ~A.again[f] /\ A' = Done(A, f)
                 /\ UNCHANGED dlv
              \/ o.k \in {"y", "q"} /\ A' = Done(A, f) /\ UNCHANGED dlv
              \/ o.k \in {"r", "w", "rblk", "wblk"} /\ Excuses(A, f) # {}
                 /\ ~Enough(A, f) /\ A' = Fails(A, f) /\ UNCHANGED dlv
              \/ A.why[f] = "mgmt" /\ UNCHANGED dlv     \* the handler
                 /\ \/ A' = [A EXCEPT !.why[f] = "none"]
                    \/ A' = [A EXCEPT !.why[f] = "refused"]
        /\ Quiet /\ UNCHANGED <<full, sent, budget>>
MSwitch == /\ MayLeave(A) /\ A.rq # <<>>
           /\ \E f \in Head(A.rq) : f # A.cur /\ A' = Switch(A, f)
           /\ Quiet /\ UNCHANGED <<full, sent, dlv, budget>>
Readable == {i \in Socks : A.sk[i].in # <<>> \/ A.sk[i].closed}
Writable == {i \in Socks : ~full[i] \/ A.sk[i].closed}
MPoll == /\ MayPoll(A) /\ Poll(A, Readable, Writable) # A
         /\ A' = Poll(A, Readable, Writable)
         /\ Quiet /\ UNCHANGED <<full, sent, dlv, budget>>
Calm == IF A.cur # Nobody THEN A.op[A.cur] = NoOp
        ELSE A.rq = <<>> /\ Woken(A, Readable, Writable) = {}
Where == IF A.cur = Nobody THEN "p" ELSE "e"
(* a second reader or writer is only there to be turned away.                *)
Second == A.cur # Nobody /\ A.op[A.cur].k \in ReadOps \cup WriteOps
          /\ Other(A, A.cur, A.op[A.cur].i, Dir(A.op[A.cur].k))
MEnv == /\ IF Sim THEN Calm ELSE ~Second
        /\ \E i \in Socks : ~A.sk[i].closed /\
            \/ /\ sent[i] < MaxBytes
               /\ A' = [A EXCEPT !.sk[i].in = Append(@, sent[i] + 1)]
               /\ sent' = [sent EXCEPT ![i] = @ + 1]
               /\ Note(<<Where, "pf", i, sent[i] + 1>>) /\ UNCHANGED full
            \/ /\ (Sim => RandomElement(1..8) = 1)
               /\ A' = [A EXCEPT !.sk[i].closed = TRUE]
               /\ Note(<<Where, "pc", i, 0>>) /\ UNCHANGED <<full, sent>>
            \/ /\ ~full[i] /\ full' = [full EXCEPT ![i] = TRUE]
               /\ A' = A /\ Note(<<Where, "pfill", i, 0>>) /\ UNCHANGED sent
            \/ /\ full[i] /\ full' = [full EXCEPT ![i] = FALSE]
               /\ A' = A /\ Note(<<Where, "pd", i, 0>>) /\ UNCHANGED sent
        /\ budget > 0 /\ budget' = budget - 1 /\ UNCHANGED dlv
MLib == MSys \/ MRet \/ MSwitch \/ MPoll
MCNext == MCall \/ MLib \/ MEnv
MCSpec == MCInit /\ [][MCNext]_mvars
MCLive == MCSpec /\ WF_mvars(MLib)

(* nothing is lost, repeated or reordered.                                   *)
Conserved == \A i \in Socks :
    dlv[i] \o A.sk[i].got \o A.sk[i].in = [k \in 1..sent[i] |-> k]
    \/ A.sk[i].rdead
(* a fiber is in one place; one fiber per socket and direction waits.        *)
QueueOf(f) == {k \in 1..Len(A.rq) : f \in A.rq[k]}
OnePlace == \A f \in Fibs :
    /\ Cardinality(QueueOf(f)) = (IF A.at[f] \in {"ready", "new"} THEN 1 ELSE 0)
    /\ (A.at[f] = "run") = (A.cur = f)
OneWaiter == \A f, g \in Fibs : \A i \in Socks : \A d \in {"r", "w"} :
    Waits(A, f, i, d) /\ Waits(A, g, i, d) => f = g
(* only a fiber that cannot proceed is suspended.                            *)
Suspended == \A f \in Fibs : A.at[f] = "wait" => ~Enough(A, f)
(* a fiber whose socket is ready runs again.                                 *)
ReaderRuns == \A f \in Fibs : \A i \in Socks :
    (Waits(A, f, i, "r") /\ i \in Readable /\ A.cur = Nobody)
        ~> (A.at[f] # "wait" \/ A.cur # Nobody \/ i \notin Readable)
WriterRuns == \A f \in Fibs : \A i \in Socks :
    (Waits(A, f, i, "w") /\ i \in Writable /\ A.cur = Nobody)
        ~> (A.at[f] # "wait" \/ A.cur # Nobody \/ i \notin Writable)
EmitSim == Sim /\ TLCGet("level") \in {Depth \div 3, (2 * Depth) \div 3, Depth} => PrintT("SIM " \o ToJson(act))
=============================================================================
