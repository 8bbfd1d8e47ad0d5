------------------------------- MODULE DescTrace -------------------------------
(* Events of harness/fds.c judged against Desc.  Every event carries the      *)
(* whole descriptor table as the kernel reports it.                           *)
EXTENDS TraceBase
CONSTANT Setsize
VARIABLES T, Fl, lim
Q == INSTANCE Desc WITH MaxFd <- 0, MaxVars <- 0, EmitEdges <- FALSE,
        T0 <- <<>>, vr <- <<>>, tg <- <<>>, pc <- <<>>, act <- <<>>
vars == <<T, Fl, lim>>
Tab == E.tab
TabT == [x \in {Tab[i][1] : i \in 1..Len(Tab)} |->
           (CHOOSE i \in 1..Len(Tab) : Tab[i][1] = x)]
Table == [x \in DOMAIN TabT |-> Tab[TabT[x]][2]]
Flags == [f \in {Tab[i][2] : i \in 1..Len(Tab)} |->
            LET i == CHOOSE j \in 1..Len(Tab) : Tab[j][2] = f
            IN  (IF Tab[i][3] = 1 THEN {"nb"} ELSE {}) \cup
                (IF Tab[i][4] = 1 THEN {"ap"} ELSE {}) \cup
                (IF Tab[i][5] = 1 THEN {"path"} ELSE {})]
(* flags belong to the open file and do not change unless asked to. *)
SameFl == /\ \A f \in DOMAIN Flags : f \in DOMAIN Fl => Flags[f] = Fl[f]
          /\ Fl' = Flags
Keep == UNCHANGED lim
TLay == /\ IsEvent("lay") /\ T' = Table /\ Fl' = Flags /\ lim' = E.lim

InT(x) == x \in DOMAIN T
TMv == /\ IsEvent("mv") /\ Keep /\ T' = Table /\ SameFl
       /\ LET badarg == E.thr < 0 \/ (\E i \in 1..Len(E.b) : E.b[i] < 0)
              dead == \E i \in 1..Len(E.b) : ~InT(E.b[i])
              room == Cardinality({x \in E.thr..lim - 1 : ~InT(x)}) >=
                        Cardinality({i \in 1..Len(E.b) : E.b[i] < E.thr})
          IN IF E.thr < 0
             THEN /\ E.st = "ERROR_GENERAL_INVALID_ARGUMENTS"
                  /\ Table = T /\ E.a = E.b
             ELSE IF badarg \/ dead \/ ~room
             THEN IF E.st = "ok"
                  (* a number at the threshold needs no look at the table. *)
                  THEN /\ \A i \in 1..Len(E.b) : ~InT(E.b[i]) =>
                            E.b[i] >= E.thr /\ E.a[i] = E.b[i]
                       /\ LET g == SelectSeq([i \in 1..Len(E.b) |-> i],
                                             LAMBDA i : InT(E.b[i]))
                              at(q) == [j \in 1..Len(g) |-> q[g[j]]]
                          IN Q!Moved(T, Table, E.thr, at(E.b), at(E.a))
                  ELSE /\ E.st \in {"ERROR_GENERAL_INVALID_ARGUMENTS",
                                    "ERROR_SOCKET_UTILITIES_DUP2_FAILURE"}
                       /\ (~badarg => E.st = "ERROR_SOCKET_UTILITIES_DUP2_FAILURE")
                       /\ (~dead /\ room =>
                             E.st = "ERROR_GENERAL_INVALID_ARGUMENTS")
                       /\ Q!MoveFailed(T, Table, E.thr, E.b, E.a)
             ELSE E.st = "ok" /\ Q!Moved(T, Table, E.thr, E.b, E.a)

(* x = fd to fd to ... ending at the first negative number. *)
RECURSIVE Upto(_, _)
Upto(x, n) == IF n > Len(x) THEN Len(x) ELSE IF x[n] < 0 THEN n - 1
              ELSE Upto(x, n + 1)
TSf == /\ IsEvent("sf") /\ Keep /\ T' = Table /\ SameFl
       /\ LET n == Upto(E.x, 1)
              ps == Q!Pairs(SubSeq(E.x, 1, n))
              fits == Q!SetOk(T, ps, lim)
              odd == n = 0 \/ n % 2 = 1
          IN IF fits /\ ~odd THEN E.st = "ok" /\ Table = Q!SetN(T, ps, Len(ps))
             ELSE /\ E.st \in (IF fits THEN {} ELSE
                                 {"ERROR_SOCKET_UTILITIES_DUP2_FAILURE"})
                              \cup (IF odd THEN
                                 {"ERROR_GENERAL_INVALID_ARGUMENTS"} ELSE {})
                  /\ \E k \in 0..Len(ps) :
                        /\ Q!SetOk(T, SubSeq(ps, 1, k), lim)
                        /\ Table = Q!SetN(T, ps, k)
(* descriptors past FD_SETSIZE: see known_findings.txt. *)
TCo == /\ IsEvent("co") /\ Keep /\ T' = Table /\ SameFl /\ E.st = "ok"
       /\ LET left == DOMAIN Table \ DOMAIN Q!CloseAbove(T, E.fd) IN
          /\ \A x \in left : x >= Setsize /\ InT(x) /\ Table[x] = T[x]
          /\ Q!Without(Table, left) = Q!CloseAbove(T, E.fd)
TCs == /\ IsEvent("cs") /\ Keep /\ T' = Table /\ SameFl /\ E.st = "ok"
       /\ Table = Q!Without(T, {0, 1, 2})
TNb == /\ IsEvent("nb") /\ Keep /\ T' = T /\ Table = T /\ Fl' = Flags
       /\ IF InT(E.fd) /\ (InT(E.fd) => "path" \notin Fl[T[E.fd]])
          THEN /\ E.st = "ok"
               /\ Flags = [Fl EXCEPT ![T[E.fd]] = @ \cup {"nb"}]
          ELSE E.st = "ERROR_SOCKET_UTILITIES_SET_NONBLOCK_FAILURE" /\ Flags = Fl
TPr == /\ IsEvent("pr") /\ Keep /\ T' = Table /\ SameFl
       /\ IF E.kind = "bad" \/
             Cardinality({x \in 0..lim - 1 : ~InT(x)}) < 2
          THEN /\ E.st = "ERROR_SOCKET_UTILITIES_SOCKETPAIR_FAILURE"
               /\ Table = T
          ELSE /\ E.st = "ok" /\ E.l # E.r /\ E.talk = 1
               /\ ~InT(E.l) /\ ~InT(E.r)
               /\ {E.l, E.r} \subseteq DOMAIN Table
               /\ Table[E.l] # Table[E.r] /\ Table[E.l] >= 1000
               /\ Table[E.r] >= 1000
               /\ Q!Without(Table, {E.l, E.r}) = T
               /\ \A f \in {Table[E.l], Table[E.r]} : Flags[f] = {}
THn == /\ IsEvent("hn") /\ UNCHANGED vars
       /\ E.net = E.v /\ E.back = E.v /\ E.host = E.v
TEnd == IsEvent("end") /\ E.live = 0 /\ UNCHANGED vars
Init == TBInit /\ T = <<>> /\ Fl = <<>> /\ lim = 0
Next == \/ /\ More
           /\ \/ TLay \/ TMv \/ TSf \/ TCo \/ TCs \/ TNb \/ TPr \/ THn \/ TEnd
        \/ TBDone(vars)
Spec == Init /\ [][Next]_<<s, l, vars>>
=============================================================================
