--------------------------------- MODULE Small ---------------------------------
(* Auto-reset triggers (rcpr/auto_reset_trigger.h), big integers              *)
(* (rcpr/bigint.h: zero and clone) and stacks (rcpr/stack.h).                 *)
(*   tg: trigger -> [sig, lis]   lis = None or the registered listener        *)
(*   bg: bigint -> [sign, v]     v the digits, 64 bits each                   *)
(*   sk: stack -> size                                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Ts, Listeners, EmitEdges
None == -1
VARIABLES tg, calls, act
Empty == [x \in {} |-> 0]
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Del(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]

(* ---- triggers ------------------------------------------------------------*)
Fresh == [sig |-> FALSE, lis |-> None]
Reg(t, c) == [t EXCEPT !.lis = c]
Signal(t) == [t EXCEPT !.sig = TRUE]
Fires(t) == t.sig /\ t.lis # None
Step(t) == IF Fires(t) THEN Fresh ELSE t
Called(t) == IF Fires(t) THEN <<t.lis>> ELSE <<>>

(* ---- big integers --------------------------------------------------------*)
Digits(bits) == (bits + 63) \div 64
Zero(bits) == [sign |-> 0, v |-> [k \in 1..Digits(bits) |-> 0]]

(* ---- the bounded design: triggers ----------------------------------------*)
(* owed counts signals not yet answered, capped at 1; ever, registrations.    *)
VARIABLES owed, reg
TInit == tg = Empty /\ calls = <<>> /\ act = <<>> /\ owed = Empty /\ reg = Empty
New(i) == /\ i \notin DOMAIN tg /\ tg' = Put(tg, i, Fresh) /\ calls' = <<>>
          /\ act' = <<"tn", i>> /\ owed' = Put(owed, i, 0)
          /\ reg' = Put(reg, i, None)
DoReg(i, c) == /\ i \in DOMAIN tg /\ calls' = <<>> /\ act' = <<"tr", i, c>>
               /\ IF tg[i].lis = None
                  THEN /\ tg' = [tg EXCEPT ![i] = Reg(@, c)]
                       /\ reg' = [reg EXCEPT ![i] = c]
                  ELSE UNCHANGED <<tg, reg>>
               /\ UNCHANGED owed
DoSignal(i) == /\ i \in DOMAIN tg /\ tg' = [tg EXCEPT ![i] = Signal(@)]
               /\ calls' = <<>> /\ act' = <<"ts", i>>
               /\ owed' = [owed EXCEPT ![i] = 1] /\ UNCHANGED reg
DoStep(i) == /\ i \in DOMAIN tg /\ tg' = [tg EXCEPT ![i] = Step(@)]
             /\ calls' = Called(tg[i]) /\ act' = <<"tp", i>>
             /\ IF Called(tg[i]) = <<>> THEN UNCHANGED <<owed, reg>>
                ELSE /\ owed' = [owed EXCEPT ![i] = 0]
                     /\ reg' = [reg EXCEPT ![i] = None]
DoFree(i) == /\ i \in DOMAIN tg /\ tg' = Del(tg, i) /\ calls' = <<>>
             /\ act' = <<"tf", i>> /\ owed' = Del(owed, i) /\ reg' = Del(reg, i)
TNext == \E i \in Ts : \/ New(i) \/ DoSignal(i) \/ DoStep(i) \/ DoFree(i)
                       \/ \E c \in Listeners : DoReg(i, c)
vars == <<tg, calls, act, owed, reg>>
TSpec == TInit /\ [][TNext]_vars
TLive == TSpec /\ \A i \in Ts : WF_vars(DoStep(i))
(* a signal is remembered until a listener heard it; a listener is called    *)
(* once per registration and only after a signal.                            *)
Remembered == \A i \in DOMAIN tg : (owed[i] = 1) = tg[i].sig
OneListener == \A i \in DOMAIN tg : tg[i].lis = reg[i]
OncePerReg == Len(calls) <= 1
Heard == \A i \in Ts : (i \in DOMAIN tg /\ owed[i] = 1 /\ reg[i] # None)
             ~> (i \notin DOMAIN tg \/ owed[i] = 0)
View == <<tg, owed, reg>>
EmitE == EmitEdges => PrintT(ToJson([f |-> tg, a |-> act', t |-> tg']))
=============================================================================
