------------------------------- MODULE ConnTrace -------------------------------
(* Events of harness/conn.c judged against Conn.                             *)
EXTENDS TraceBase
CONSTANTS Slots, Ends
VARIABLES C
N == INSTANCE Conn WITH MaxBytes <- 0, EmitEdges <- FALSE, Sim <- FALSE,
        Depth <- 0, act <- <<>>, log <- <<>>, dlv <- <<>>, sent <- <<>>
vars == <<C>>
B(i) == C.ob[N!Base(C, i)]
K(i) == N!K(C, i)
EndCodes == {"ERROR_PSOCK_READ_INVALID_SIZE", "ERROR_PSOCK_READ_EOF",
             "ERROR_PSOCK_READ_GENERAL", "ERROR_PSOCK_RECVMSG_FAILED"}
WEndCodes == {"ERROR_PSOCK_WRITE_GENERAL", "ERROR_PSOCK_WRITE_EOF",
              "ERROR_PSOCK_WRITE_INVALID_SIZE", "ERROR_PSOCK_SENDMSG_FAILED"}
Take(q, n) == SubSeq(q, 1, n)
Drop(q, n) == SubSeq(q, n + 1, Len(q))

TMake == /\ IsEvent("mk") /\ N!Free(C, E.s)
         /\ IF Oom THEN E.st = "oom" /\ E.fds = 0 /\ C' = C
            ELSE /\ E.st = "ok" /\ E.fds = N!Opens(C, E.k)
                 /\ C' = IF E.k \in N!Pairs THEN N!Pair(C, E.k, E.s, E.t)
                         ELSE [N!Put(C, E.s, E.k) EXCEPT
                                  !.ob[E.s].w = E.t, !.ob[E.s].m = E.m,
                                  !.ob[E.s].x = E.x, !.ob[E.s].d = E.v]

(* a listener, a connection: made whole, or the step that failed is named    *)
(* and nothing stays open.                                                   *)
TListen == /\ IsEvent("lst") /\ N!Free(C, E.s)
           /\ E.st = N!ListenStatus(E.u, E.f, Oom)
           /\ IF E.st = "ok"
              THEN E.fds = 1 /\ E.null = 0 /\ C' = N!Listen(C, E.s)
              ELSE E.fds = 0 /\ E.null = 1 /\ C' = C
TConnect == /\ IsEvent("con") /\ N!Free(C, E.s)
            /\ E.st = N!ConnectStatus(E.h, E.l, E.f, Oom)
            /\ E.right = 1
            /\ IF E.st = "ok"
               THEN /\ E.fds = 1 /\ E.null = 0 /\ E.to = E.l
                    /\ E.fam = N!Family(E.h) /\ C' = N!Connect(C, E.s, E.l)
               ELSE /\ E.fds = 0 /\ E.null = 1
                    /\ (E.reached = 1 => E.st = "oom")
                    /\ C' = IF E.reached = 1 THEN N!Ghost(C, E.l) ELSE C
TAccept == /\ IsEvent("acc") /\ ~N!Free(C, E.s) /\ N!Free(C, E.c)
           /\ E.st = N!AcceptStatus(C, E.s, E.f)
           /\ IF E.st # "ok" THEN E.fds = 0 /\ E.kept = 1 /\ C' = C
              ELSE IF K(E.s) = "ur"
              THEN E.from = -2 /\ E.fds = 1 /\ C' = C
              ELSE /\ E.fds = 1 /\ E.same = 1 /\ E.from = Head(B(E.s).q)
                   /\ C' = N!Accept(C, E.s, E.c)
TNonblock == IsEvent("nb") /\ C' = [C EXCEPT !.ob[E.s].nb = TRUE]
TType == IsEvent("typ") /\ E.t = N!Type(C, E.s) /\ C' = C

(* a release gives everything back, and says if some of it could not be.     *)
Blocks(k) == CASE k \in {"br", "bi"} -> 2 [] k = "bo" -> 3 [] OTHER -> 1
TRelease ==
    /\ IsEvent("rel") /\ ~N!Free(C, E.s) /\ ~N!Wrapped(C, E.s) /\ E.less = 1
    /\ LET o == C.ob[E.s]
           own == o.k = "ur" /\ N!Bit(o.m, 8)
           may == (IF E.hit = 1 THEN {"status_7f000002"} ELSE {})
                  \cup (IF own /\ o.x = 1 THEN {N!User} ELSE {})
       IN /\ E.st \in (IF may = {} THEN {"ok"} ELSE may)
          /\ E.n \in 1..Blocks(o.k) => E.hit = 1
          /\ E.urel = (IF own THEN 1 ELSE 0)
          /\ E.fds = -(CASE o.k \in {"lis", "ep"} \cup N!Pairs -> 1
                         [] OTHER -> 0)
    /\ C' = N!Release(C, E.s)

(* bytes. *)
Me == B(E.s).e
From == N!Peer(Me)
TWrite ==
    /\ IsEvent("w")
    /\ CASE N!Stream(K(E.s)) ->
              IF C.shut[From] \/ C.hurt[Me]
              THEN E.st \in {"ok"} \cup WEndCodes /\ C' = C
              ELSE E.st = "ok" /\ C' = [C EXCEPT !.out[Me] = @ \o E.v]
         [] K(E.s) = "bo" ->
              E.st = "ok" /\ C' = [C EXCEPT !.ob[N!Base(C, E.s)].d = @ \o E.v]
         [] K(E.s) = "bi" -> E.st = N!Unsupported /\ C' = C
         [] OTHER -> C' = C
TRead ==
    /\ IsEvent("r")
    /\ CASE N!Stream(K(E.s)) ->
              IF C.hurt[Me] THEN C' = C
              ELSE IF Len(C.out[From]) >= E.n
              THEN /\ E.st = "ok" /\ E.v = Take(C.out[From], E.n)
                   /\ C' = [C EXCEPT !.out[From] = Drop(@, E.n)]
              ELSE E.st \in EndCodes /\ C' = [C EXCEPT !.hurt[Me] = TRUE]
         [] K(E.s) = "bi" ->
              IF B(E.s).bad THEN C' = C
              ELSE IF Len(B(E.s).d) >= E.n
              THEN /\ E.st = "ok" /\ E.v = Take(B(E.s).d, E.n)
                   /\ C' = [C EXCEPT !.ob[N!Base(C, E.s)].d = Drop(@, E.n)]
              ELSE /\ E.st \in EndCodes
                   /\ C' = [C EXCEPT !.ob[N!Base(C, E.s)].bad = TRUE]
         [] K(E.s) = "bo" -> E.n > 0 => (E.st \in EndCodes /\ C' = C)
         [] OTHER -> C' = C
TOut == /\ IsEvent("out") /\ C' = C
        /\ IF C.ob[E.s].k # "bo" THEN E.st = N!Unsupported /\ E.kept = 1
           ELSE IF Oom THEN E.st = "oom"
           ELSE E.st = "ok" /\ E.v = C.ob[E.s].d

(* descriptors travel over datagram sockets, also through a buffered reader. *)
TSend == /\ IsEvent("sd") /\ E.fds = 0 /\ E.still = 1
         /\ IF K(E.s) # "ud" THEN E.st = N!Unsupported /\ C' = C
            ELSE IF C.shut[From] THEN E.st \in WEndCodes /\ C' = C
            ELSE E.st = "ok" /\ C' = [C EXCEPT !.out[Me] = Append(@, E.id)]
TReceive == /\ IsEvent("rd")
            /\ IF K(E.s) # "ud" THEN E.st = N!Unsupported /\ E.fds = 0 /\ C' = C
               ELSE IF C.out[From] = <<>>
               THEN E.st \in EndCodes /\ E.fds = 0 /\ C' = C
               ELSE /\ E.st = "ok" /\ E.id = Head(C.out[From]) /\ E.fds = 1
                    /\ C' = [C EXCEPT !.out[From] = Tail(@)]

(* options: the named one, on that descriptor only; or a refusal and nothing. *)
Direct(i) == C.ob[i].k \in {"lis", "ep"} \cup N!Pairs
TOption == /\ IsEvent("opt") /\ C' = C
           /\ IF ~Direct(E.s) THEN E.st = N!Undefined /\ E.aft = E.bef
              ELSE IF K(E.s) = "pi" \/ E.o = 3 \/ E.n # 4
              THEN E.st = "ERROR_PSOCK_SETSOCKOPT" /\ E.aft = E.bef
              ELSE /\ E.st = "ok"
                   /\ E.aft = [E.bef EXCEPT ![E.o + 1] = E.v]

TEnd == /\ IsEvent("end") /\ E.rc = 0 /\ E.left = 0 /\ E.foreign = 0
        /\ E.live = 0 /\ C' = C
Init == TBInit /\ C = N!C0
Next == \/ /\ More
           /\ \/ TMake \/ TListen \/ TConnect \/ TAccept \/ TNonblock \/ TType
              \/ TRelease \/ TWrite \/ TRead \/ TOut \/ TSend \/ TReceive
              \/ TOption \/ TEnd
        \/ TBDone(vars)
Spec == Init /\ [][Next]_<<s, l, vars>>
=============================================================================
