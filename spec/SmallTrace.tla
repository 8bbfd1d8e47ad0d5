------------------------------ MODULE SmallTrace ------------------------------
(* Events of harness/small.c judged against Small.                           *)
EXTENDS TraceBase
VARIABLES tg, bg, sk
Q == INSTANCE Small WITH Ts <- {}, Listeners <- {}, EmitEdges <- FALSE,
        calls <- <<>>, act <- <<>>, owed <- <<>>, reg <- <<>>
vars == <<tg, bg, sk>>
TUn == UNCHANGED <<bg, sk>>
BUn == UNCHANGED <<tg, sk>>
KUn == UNCHANGED <<tg, bg>>
Silent == E.calls = <<>>
(* made from the allocator given, and from no other. *)
Made(f, v) == E.other = 0 /\ IF Oom THEN E.st = "oom" /\ E.null = 1 /\ f' = f
              ELSE E.st = "ok" /\ E.null = 0 /\ E.i \notin DOMAIN f
                   /\ f' = Q!Put(f, E.i, v)
(* a release that could not hand a block back says so. *)
Gone(f) == (E.rcf = 1 <=> E.st # "ok") /\ f' = Q!Del(f, E.i)
TTn == /\ IsEvent("tn") /\ TUn /\ Silent
       /\ Made(tg, Q!Fresh)
TTr == /\ IsEvent("tr") /\ TUn /\ Silent
       /\ IF tg[E.i].lis = Q!None
          THEN E.st = "ok" /\ tg' = [tg EXCEPT ![E.i] = Q!Reg(@, E.c)]
          ELSE /\ E.st = "ERROR_AUTO_RESET_TRIGGER_LISTENER_ALREADY_REGISTERED"
               /\ UNCHANGED tg
TTs == IsEvent("ts") /\ TUn /\ Silent /\ tg' = [tg EXCEPT ![E.i] = Q!Signal(@)]
TTp == IsEvent("tp") /\ TUn /\ E.calls = Q!Called(tg[E.i])
       /\ tg' = [tg EXCEPT ![E.i] = Q!Step(@)]
TTf == IsEvent("tf") /\ TUn /\ Silent /\ Gone(tg)
TGn == IsEvent("gn") /\ BUn /\ Made(bg, Q!Zero(E.n))
TGc == IsEvent("gc") /\ BUn /\ Made(bg, bg[E.j])
TGp == IsEvent("gp") /\ BUn
       /\ bg' = [bg EXCEPT ![E.i].v[E.d + 1] = E.v, ![E.i].sign = E.s]
(* at least as many digits as were asked for. *)
TGr == IsEvent("gr") /\ UNCHANGED vars /\ E.v = bg[E.i].v /\ E.s = bg[E.i].sign
TGf == IsEvent("gf") /\ BUn /\ Gone(bg)
TKn == IsEvent("kn") /\ KUn /\ (~Oom => E.n > 0 /\ E.size >= E.n) /\ Made(sk, E.n)
TKf == IsEvent("kf") /\ KUn /\ Gone(sk)
Stuck == \E k \in 1..Len(Traces[s]) :
    "rcf" \in DOMAIN Traces[s][k] /\ Traces[s][k].rcf = 1
TEnd == IsEvent("end") /\ (Stuck \/ E.live = 0) /\ E.foreign = 0 /\ E.rc = 0 /\ Silent /\ UNCHANGED vars
Init == TBInit /\ tg = Q!Empty /\ bg = Q!Empty /\ sk = Q!Empty
Next == \/ /\ More
           /\ \/ TTn \/ TTr \/ TTs \/ TTp \/ TTf \/ TGn \/ TGc \/ TGp \/ TGr
              \/ TGf \/ TKn \/ TKf \/ TEnd
        \/ TBDone(vars)
Spec == Init /\ [][Next]_<<s, l, vars>>
=============================================================================
