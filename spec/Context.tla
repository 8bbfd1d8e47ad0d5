--------------------------------- MODULE Context ---------------------------------
(* The machine context of fibers (fiber_make, fiber_switch, fiber_entry) and  *)
(* the protocol between fibers and a caller-written scheduler                 *)
(* (fiber_scheduler_create, _add, _yield, _run).  K is a record:              *)
(*   cur  : the running fiber           st : fiber ->                         *)
(*          "none" | "held" (created, caller's) | "new" (the scheduler's, not *)
(*          entered) | "susp" | "run" | "stop"                                *)
(*   stk  : fiber -> its stack: frames of locals and, on top of a suspended   *)
(*          fiber's, the frame fiber_switch left                              *)
(*   cpu  : the registers a callee must preserve, incl. the control words     *)
(*   how  : fiber -> the call it is suspended in                              *)
(*   ctl  : fiber -> the floating-point control words it starts with: those   *)
(*          in force where it was created                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NF, MaxDepth, EmitEdges
Fs == 0..NF - 1
NoCpu == <<>>
K0 == [cur |-> 0, st |-> [f \in Fs |-> IF f = 0 THEN "run" ELSE "none"],
       stk |-> [f \in Fs |-> <<>>], cpu |-> NoCpu,
       how |-> [f \in Fs |-> "none"], ctl |-> [f \in Fs |-> 0]]
Top(q) == q[Len(q)]
Pop(q) == SubSeq(q, 1, Len(q) - 1)
Depth(K, f) == Cardinality({i \in 1..Len(K.stk[f]) : K.stk[f][i].k = "local"})

(* fiber_switch: everything a callee must preserve goes onto the stack of the *)
(* fiber being left and comes back from the stack of the one entered.         *)
Leave(K, how) == [K EXCEPT !.stk[K.cur] = Append(@, [k |-> "saved", r |-> K.cpu]),
                           !.st[K.cur] = IF how = "stop" THEN "stop" ELSE "susp",
                           !.how[K.cur] = how]
Enter(K, f, fresh) ==
    IF K.st[f] = "susp"
    THEN [K EXCEPT !.cpu = Top(K.stk[f]).r, !.stk[f] = Pop(@), !.st[f] = "run",
                   !.cur = f]
    ELSE [K EXCEPT !.cpu = fresh, !.st[f] = "run", !.cur = f]
Switch(K, how, f, fresh) ==
    IF f = K.cur /\ how # "stop" THEN [K EXCEPT !.how[f] = how]
    ELSE Enter(Leave(K, how), f, fresh)
Ready(K, f) == K.st[f] \in {"new", "susp", "run"}

Create(K, f, w) == [K EXCEPT !.st[f] = "held", !.ctl[f] = w]
Adopt(K, f) == [K EXCEPT !.st[f] = "new"]
Deeper(K) == [K EXCEPT !.stk[K.cur] = Append(@, [k |-> "local", r |-> Len(@) + 1])]
Shallower(K) == [K EXCEPT !.stk[K.cur] = Pop(@)]

(* ---- the bounded design ---------------------------------------------------*)
VARIABLES K, act, mine
vars == <<K, act, mine>>
Vec(f, n) == <<f, n>>
Init == K = [K0 EXCEPT !.cpu = Vec(0, 0)] /\ act = <<>> /\ mine = [f \in Fs |-> <<>>]
Do(k, a, m) == K' = k /\ act' = a /\ mine' = m
(* before a call the fiber puts its own values in the registers. *)
Load(n) == [K EXCEPT !.cpu = Vec(K.cur, n)]
Held(n) == [mine EXCEPT ![K.cur] = Vec(K.cur, n)]
Next ==
    \/ \E f \in Fs : K.st[f] = "none" /\ Do(Create(K, f, 0), <<"fn", f>>, mine)
    \/ \E f \in Fs, g \in Fs, n \in 0..1 :
         /\ K.st[f] = "held" /\ Ready(Adopt(K, f), g)
         /\ Do(Switch(Adopt(Load(n), f), "add", g, <<"fresh">>),
               <<"ad", f, g, 0, 17, 5, n>>, Held(n))
    \/ \E g \in Fs, n \in 0..1 :
         /\ Ready(K, g)
         /\ Do(Switch(Load(n), "yield", g, <<"fresh">>),
               <<"sw", g, 1, 300 + n, 6, n>>, Held(n))
    \/ \E g \in Fs, n \in 0..1 :
         /\ Ready(K, g) /\ K.cur = 0
         /\ Do(Switch(Load(n), "run", g, <<"fresh">>),
               <<"ru", g, 0, 18, -1, n>>, Held(n))
    \/ \E g \in Fs :
         /\ K.cur # 0 /\ g # K.cur /\ Ready(K, g)
         /\ Do(Switch(K, "stop", g, <<"fresh">>), <<"ex", 40 + K.cur, g, 0, 7, 8>>,
               mine)
    \/ \E g \in Fs : Do(Load(1), <<"er", 9, 1, g>>, Held(1))
    \/ \E f \in Fs, g \in Fs :
         K.st[f] = "held" /\ Do(Load(1), <<"ea", f, 8, 1, g>>, Held(1))
    \/ \E g \in Fs : K.cur = 0 /\ Do(Load(1), <<"eu", 7, 1, g>>, Held(1))
    \/ Depth(K, K.cur) < MaxDepth /\ Do(Deeper(K), <<"dp">>, mine)
    \/ Depth(K, K.cur) > 0 /\ Do(Shallower(K), <<"up">>, mine)
Spec == Init /\ [][Next]_vars
OneRuns == \A f \in Fs : (K.st[f] = "run") = (f = K.cur)
(* a suspended fiber's registers and locals are on its own stack, intact.     *)
Kept == \A f \in Fs : K.st[f] = "susp" =>
    /\ Top(K.stk[f]) = [k |-> "saved", r |-> mine[f]]
    /\ \A i \in 1..Len(K.stk[f]) - 1 : K.stk[f][i] = [k |-> "local", r |-> i]
(* and when it resumes it finds them in the registers. *)
Back == [][K'.cur # K.cur /\ K.st[K'.cur] = "susp" => K'.cpu = mine[K'.cur]]_vars
Dead == [][\A f \in Fs : K.st[f] = "stop" => K'.st[f] = "stop" /\ K'.cur # f]_vars
Emitted(k) == [c |-> k.cur, s |-> k.st, d |-> [f \in Fs |-> Depth(k, f)]]
View == <<Emitted(K)>>
EmitE == EmitEdges => PrintT(ToJson([f |-> Emitted(K), a |-> act', t |-> Emitted(K')]))
=============================================================================
