---------------------------------- MODULE Conn ---------------------------------
(* Making, accepting and letting go of psocks (rcpr/psock.h): listeners,      *)
(* connections by host name, socket pairs, pipes, buffers, user methods, and  *)
(* buffered readers over any of them.                                         *)
(*                                                                            *)
(* The state C:                                                               *)
(*   ob    psock in each slot: k its kind, e its end, w what it wraps, m and  *)
(*         x the user's methods and whether they fail, q the ends waiting to  *)
(*         be accepted (listeners), d what a buffer holds, nb nonblocking,    *)
(*         bad a read has failed                                              *)
(*   n     ends made so far; ends 2j and 2j+1 are the two of a connection     *)
(*   out   what each end has sent and its peer not read                       *)
(*   shut  the end is closed;  hurt  what it reads can no longer be told      *)
(*         (a connection that was cut with bytes under way)                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Slots, Ends
Nothing == [k |-> "none", e |-> -1, w |-> -1, m |-> 0, x |-> 0, q |-> <<>>,
            d |-> <<>>, nb |-> FALSE, bad |-> FALSE]
C0 == [ob |-> [s \in Slots |-> Nothing], n |-> 0,
       out |-> [e \in Ends |-> <<>>], shut |-> [e \in Ends |-> FALSE],
       hurt |-> [e \in Ends |-> FALSE]]
Peer(e) == IF e % 2 = 0 THEN e + 1 ELSE e - 1
Free(C, s) == C.ob[s].k = "none"
RECURSIVE Base(_, _)
Base(C, s) == IF C.ob[s].k = "br" THEN Base(C, C.ob[s].w) ELSE s
K(C, s) == C.ob[Base(C, s)].k
Wrapped(C, s) == \E t \in Slots : C.ob[t].k = "br" /\ C.ob[t].w = s
Stream(k) == k \in {"ep", "us"}
Put(C, s, k) == [C EXCEPT !.ob[s] = [Nothing EXCEPT !.k = k]]
Pairs == {"us", "ud", "sp", "pi"}

(* the socket type a psock reports: 1 stream, 2 datagram, 3 other.           *)
Type(C, s) == CASE K(C, s) \in {"lis", "ep", "us"} -> 1
                [] K(C, s) = "ud" -> 2
                [] OTHER -> 3

(* ---- outcomes of making one: which step fails first ----------------------*)
Bit(f, b) == (f \div b) % 2 = 1
FSocket == 1
FBind == 2
FListen == 4
FClose == 8
FConnect == 16
FAccept == 32
FAgain == 64
(* oom: the allocator was asked and refused.                                 *)
ListenStatus(u, f, oom) ==
    LET a == "ERROR_PSOCK_CREATE_FROM_ADDRESS_"
        st == IF oom THEN "oom"
              ELSE IF Bit(f, FBind) \/ u # -1 THEN a \o "BIND"
              ELSE IF Bit(f, FListen) THEN a \o "LISTEN" ELSE "ok"
    IN IF Bit(f, FSocket) /\ ~oom THEN a \o "SOCKET_CREATE"
       ELSE IF st # "ok" /\ Bit(f, FClose) THEN a \o "CLOSE" ELSE st
(* hosts: 0 and 1 name this machine, 2 does over IPv6 only, 3 nothing, 4 has *)
(* two addresses.                                                            *)
Family(h) == CASE h = 2 -> 6 [] h = 3 -> 0 [] OTHER -> 4
ConnectStatus(h, l, f, oom) ==
    IF oom THEN "oom"
    ELSE IF Family(h) = 0 THEN "ERROR_PSOCK_HOSTNAME_LOOKUP_FAILURE"
    ELSE IF Bit(f, FSocket) THEN "ERROR_PSOCK_SOCKET_CREATE"
    ELSE IF Bit(f, FConnect) \/ l < 0 THEN "ERROR_PSOCK_CONNECTION_REFUSED"
    ELSE "ok"
User == "status_7f000003"
Undefined == "ERROR_PSOCK_METHOD_UNDEFINED"
Unsupported == "ERROR_PSOCK_UNSUPPORTED_TYPE"
AcceptStatus(C, s, f) ==
    LET o == C.ob[Base(C, s)] IN
    CASE o.k \in {"bi", "bo"} -> Unsupported
      [] o.k = "ur" -> IF ~Bit(o.m, 1) THEN Undefined
                       ELSE IF o.x = 1 THEN User ELSE "ok"
      [] Bit(f, FAccept) -> "ERROR_PSOCK_ACCEPT_GENERAL"
      [] Bit(f, FAgain) -> "ERROR_PSOCK_ACCEPT_WOULD_BLOCK"
      [] o.k # "lis" -> "ERROR_PSOCK_ACCEPT_GENERAL"
      [] o.q = <<>> -> "ERROR_PSOCK_ACCEPT_WOULD_BLOCK"
      [] OTHER -> "ok"
Opens(C, k) == CASE k \in Pairs -> 2
                 [] k \in {"lis", "ep"} -> 1
                 [] OTHER -> 0

(* ---- what happens --------------------------------------------------------*)
Listen(C, s) == Put(C, s, "lis")
Pair(C, k, s, t) ==
    LET a == Put(Put(C, s, k), t, k)
    IN [a EXCEPT !.ob[s].e = C.n, !.ob[t].e = C.n + 1, !.n = @ + 2]
Connect(C, s, l) ==
    LET a == Put(C, s, "ep")
    IN [a EXCEPT !.ob[s].e = C.n, !.n = @ + 2, !.ob[l].q = Append(@, C.n)]
(* made, but let go before it could be handed over: only the listener knows. *)
Ghost(C, l) == [C EXCEPT !.shut[C.n] = TRUE, !.n = @ + 2,
                         !.ob[l].q = Append(@, C.n)]
(* the new end is the other one of the connection that waited longest.       *)
Accept(C, s, c) ==
    LET b == Base(C, s)
        e == Peer(Head(C.ob[b].q))
        a == Put([C EXCEPT !.ob[b].q = Tail(@)], c, "ep")
    IN [a EXCEPT !.ob[c].e = e]
Unread(C, e) == C.out[Peer(e)] # <<>>
RECURSIVE HurtAll(_, _)
HurtAll(C, q) == IF q = <<>> THEN C
    ELSE HurtAll([C EXCEPT !.hurt[Head(q)] = TRUE,
                           !.shut[Peer(Head(q))] = TRUE], Tail(q))
Release(C, s) ==
    LET o == C.ob[s]
        a == [C EXCEPT !.ob[s] = Nothing]
    IN CASE o.k = "lis" -> HurtAll(a, o.q)
         [] o.k = "ep" \/ o.k \in Pairs ->
              [a EXCEPT !.shut[o.e] = TRUE,
                        !.hurt[Peer(o.e)] = @ \/ Unread(C, o.e)]
         [] o.k = "br" /\ Stream(K(C, s)) ->    \* it may have read ahead
              [a EXCEPT !.hurt[C.ob[Base(C, s)].e] = TRUE]
         [] o.k = "br" /\ K(C, s) = "bi" ->
              [a EXCEPT !.ob[Base(C, s)].bad = TRUE]
         [] OTHER -> a

(* ---- the bounded design -------------------------------------------------- *)
CONSTANTS MaxBytes, EmitEdges, Sim, Depth
VARIABLES C, act, log, dlv, sent
vars == <<C, act, log, dlv, sent>>
(* log: ends as they asked for each listener's attention, and as they were   *)
(* accepted; sent and dlv: bytes per end.                                    *)
MCInit == C = C0 /\ act = <<>> /\ log = [asked |-> <<>>, taken |-> <<>>]
          /\ sent = [e \in Ends |-> 0] /\ dlv = [e \in Ends |-> <<>>]
Note(x) == act' = IF Sim THEN Append(act, x) ELSE x
Faults == {0, FSocket, FBind, FListen, FBind + FClose}
DoListen(s, u, f) ==
    /\ Free(C, s) /\ (u >= 0 => C.ob[u].k = "lis")
    /\ C' = IF ListenStatus(u, f, FALSE) = "ok" THEN Listen(C, s) ELSE C
    /\ Note(<<"lst", s, u, f>>) /\ UNCHANGED <<log, dlv, sent>>
DoConnect(s, h, l, f, o) ==
    /\ Free(C, s) /\ (l >= 0 => C.ob[l].k = "lis") /\ C.n + 1 \in Ends
    /\ IF ConnectStatus(h, l, f, o) = "oom"
       THEN C' = Ghost(C, l)
            /\ log' = [log EXCEPT !.asked = Append(@, <<l, C.n>>)]
       ELSE IF ConnectStatus(h, l, f, o) = "ok"
       THEN C' = Connect(C, s, l)
            /\ log' = [log EXCEPT !.asked = Append(@, <<l, C.n>>)]
       ELSE C' = C /\ UNCHANGED log
    /\ Note(IF o THEN <<"!1", "con", s, h, l, f>>
            ELSE <<"con", s, h, l, f>>) /\ UNCHANGED <<dlv, sent>>
DoAccept(s, c, f) ==
    /\ ~Free(C, s) /\ Free(C, c)
    /\ (K(C, s) = "lis" /\ f = 0) =>
           (C.ob[Base(C, s)].q # <<>> \/ C.ob[Base(C, s)].nb)
    /\ IF AcceptStatus(C, s, f) = "ok"
       THEN C' = Accept(C, s, c)
            /\ log' = [log EXCEPT !.taken =
                          Append(@, <<Base(C, s), Head(C.ob[Base(C, s)].q)>>)]
       ELSE C' = C /\ UNCHANGED log
    /\ Note(<<"acc", s, c, f, 1>>) /\ UNCHANGED <<dlv, sent>>
DoWrite(s) ==
    /\ ~Free(C, s) /\ ~Wrapped(C, s) /\ Stream(K(C, s))
    /\ LET e == C.ob[Base(C, s)].e
       IN /\ sent[e] < MaxBytes /\ ~C.shut[Peer(e)] /\ ~C.hurt[e]
          /\ C' = [C EXCEPT !.out[e] = Append(@, sent[e] + 1)]
          /\ sent' = [sent EXCEPT ![e] = @ + 1]
          /\ Note(<<"w", s, sent[e] + 1>>)
    /\ UNCHANGED <<log, dlv>>
DoRead(s) ==
    /\ ~Free(C, s) /\ ~Wrapped(C, s) /\ Stream(K(C, s))
    /\ LET e == C.ob[Base(C, s)].e
           p == Peer(e)
       IN /\ C.out[p] # <<>> /\ ~C.hurt[e]
          /\ C' = [C EXCEPT !.out[p] = Tail(@)]
          /\ dlv' = [dlv EXCEPT ![p] = Append(@, Head(C.out[p]))]
    /\ Note(<<"r", s, 1>>) /\ UNCHANGED <<log, sent>>
DoWrap(s, t) ==
    /\ Free(C, s) /\ ~Free(C, t) /\ ~Wrapped(C, t) /\ C.ob[t].k # "br"
    /\ C' = [Put(C, s, "br") EXCEPT !.ob[s].w = t]
    /\ Note(<<"mk", "br", s, t>>) /\ UNCHANGED <<log, dlv, sent>>
DoNonblock(s) ==
    /\ C.ob[s].k = "lis" /\ ~C.ob[s].nb
    /\ C' = [C EXCEPT !.ob[s].nb = TRUE]
    /\ Note(<<"nb", s>>) /\ UNCHANGED <<log, dlv, sent>>
DoRelease(s) ==
    /\ ~Free(C, s) /\ ~Wrapped(C, s) /\ C' = Release(C, s)
    (* a listener that goes takes those who wait with it.                    *)
    /\ log' = IF C.ob[s].k = "lis"
              THEN [asked |-> SelectSeq(log.asked, LAMBDA x : x[1] # s),
                    taken |-> SelectSeq(log.taken, LAMBDA x : x[1] # s)]
              ELSE log
    /\ Note(<<"rel", s>>) /\ UNCHANGED <<dlv, sent>>
MCNext == \E s \in Slots :
    \/ DoWrite(s) \/ DoRead(s) \/ DoNonblock(s) \/ DoRelease(s)
    \/ \E u \in {-1, -2, s}, f \in Faults :
          DoListen(s, IF u = s THEN (s + 1) % Cardinality(Slots) ELSE u, f)
    \/ \E h \in {0, 3}, l \in {-1} \cup Slots, f \in {0, FSocket, FConnect} :
          DoConnect(s, h, l, f, FALSE) \/ (f = 0 /\ l >= 0 /\ h = 0 /\ DoConnect(s, h, l, f, TRUE))
    \/ \E c \in Slots, f \in {0, FAccept} : DoAccept(s, c, f)
    \/ \E t \in Slots : DoWrap(s, t)
MCSpec == MCInit /\ [][MCNext]_vars

(* connections are accepted in the order they were made, each once.          *)
Of(q, s) == SelectSeq(q, LAMBDA x : x[1] = s)
InOrder == \A s \in Slots : C.ob[s].k = "lis" =>
    LET a == Of(log.asked, s)
        t == Of(log.taken, s)
    IN /\ Len(t) <= Len(a) /\ \A i \in 1..Len(t) : t[i] = a[i]
       /\ Len(a) - Len(t) = Len(C.ob[s].q)
(* an end belongs to one psock; a waiting one to none on its other side.     *)
OneHolder == \A s, t \in Slots :
    (s # t /\ C.ob[s].e >= 0) => C.ob[s].e # C.ob[t].e
(* what is sent arrives, in order, at the other end only.                    *)
Arrives == \A e \in Ends : C.hurt[Peer(e)] \/
    dlv[e] \o C.out[e] = [i \in 1..sent[e] |-> i]
(* one open descriptor per listener and connected end, and those that wait.  *)
OpenEnds == \A e \in Ends : (e < C.n /\ ~C.shut[e]) =>
    \/ \E s \in Slots : C.ob[s].e = e
    \/ \E s \in Slots : \E i \in 1..Len(C.ob[s].q) : C.ob[s].q[i] = Peer(e)
View == <<C, sent>>
MCView == <<C, log, dlv, sent>>
EmitE == EmitEdges => PrintT(ToJson([f |-> <<C, sent>>, a |-> act',
                                     t |-> <<C', sent'>>]))
EmitSim == Sim /\ TLCGet("level") = Depth => PrintT("SIM " \o ToJson(act))
=============================================================================
