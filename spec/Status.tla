--------------------------------- MODULE Status ---------------------------------
(* Status codes (rcpr/status.h, rcpr/component.h) and routines written with   *)
(* the control-flow macros (rcpr/control.h).                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Min == -2147483647 - 1
(* a failure flag, a component of 16 bits, a reason of 15.                    *)
Code(e, c, r) == (IF e = 1 THEN Min ELSE 0) + (c * 32768 + r)
Rest(x) == IF x < 0 THEN x - Min ELSE x
Failed(x) == x < 0
Component(x) == Rest(x) \div 32768
Reason(x) == Rest(x) % 32768
(* a component: a family of 8 bits and a part of 8.                           *)
Make(f, p) == f * 256 + p

(* ---- a routine of steps 1..n, each with its cleanup ----------------------- *)
(* a, r: what step i and its cleanup return; keep: a success keeps what the   *)
(* steps made.  log: steps done (i) and cleanups done (-i), in order.         *)
RECURSIVE Upto(_), Clean(_, _, _, _)
Upto(a) == IF a = <<>> THEN 0
           ELSE IF Head(a) # 0 THEN 0 ELSE 1 + Upto(Tail(a))
Clean(r, i, log, ret) == IF i = 0 THEN [log |-> log, ret |-> ret]
    ELSE Clean(r, i - 1, Append(log, -i), IF r[i] # 0 THEN r[i] ELSE ret)
Run(a, r, keep) ==
    LET n == Len(a)
        k == Upto(a)
        did == [i \in 1..(IF k = n THEN n ELSE k + 1) |-> i]
        ret == IF k = n THEN 0 ELSE a[k + 1]
    IN IF k = n /\ keep THEN [log |-> did, ret |-> 0]
       ELSE Clean(r, k, did, ret)

(* ---- the same, step by step ------------------------------------------------*)
CONSTANTS N, Values, Fields
VARIABLES a, r, keep, pc, held, ret, log
vars == <<a, r, keep, pc, held, ret, log>>
Outcomes == [1..N -> Values]
Init == /\ a \in Outcomes /\ r \in Outcomes /\ keep \in BOOLEAN
        /\ pc = "go" /\ held = 0 /\ ret = 0 /\ log = <<>>
Step == /\ pc = "go" /\ held < N
        /\ log' = Append(log, held + 1) /\ ret' = a[held + 1]
        /\ IF a[held + 1] = 0 THEN held' = held + 1 /\ pc' = pc
           ELSE held' = held /\ pc' = "clean"
        /\ UNCHANGED <<a, r, keep>>
End == /\ pc = "go" /\ held = N
       /\ pc' = IF keep THEN "done" ELSE "clean"
       /\ UNCHANGED <<a, r, keep, held, ret, log>>
Cleanup == /\ pc = "clean" /\ held > 0
           /\ log' = Append(log, -held) /\ held' = held - 1
           /\ ret' = IF r[held] # 0 THEN r[held] ELSE ret
           /\ UNCHANGED <<a, r, keep, pc>>
Return == /\ pc = "clean" /\ held = 0 /\ pc' = "done"
          /\ UNCHANGED <<a, r, keep, held, ret, log>>
Stop == pc = "done" /\ UNCHANGED vars
Next == Step \/ End \/ Cleanup \/ Return \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

AsSeq(f) == [i \in 1..N |-> f[i]]
Same == pc = "done" => [log |-> log, ret |-> ret] = Run(AsSeq(a), AsSeq(r), keep)
Once == \A i, j \in 1..Len(log) : i # j => log[i] # log[j]
(* a failure keeps nothing; nothing is cleaned that was not made.             *)
NoneKept == pc = "done" /\ (ret # 0 \/ ~keep) => held = 0
OnlyMade == \A i \in 1..Len(log) : log[i] < 0 =>
    \E j \in 1..i - 1 : log[j] = -log[i] /\ a[log[j]] = 0
NotLost == pc = "done" /\ (\E i \in 1..Len(log) :
              IF log[i] > 0 THEN a[log[i]] # 0 ELSE r[-log[i]] # 0) => ret # 0
Ends == <>(pc = "done")

(* distinct parts make distinct codes, which give the parts back.             *)
C16 == {0, 1, 2, 255, 256, 257, 32767, 32768, 65534, 65535}
R15 == {0, 1, 2, 255, 16383, 16384, 32766, 32767}
Laws == /\ \A e \in {0, 1}, c \in C16, x \in R15 :
             LET y == Code(e, c, x) IN
             /\ Failed(y) <=> e = 1
             /\ Component(y) = c /\ Reason(y) = x
        /\ Cardinality({Code(e, c, x) : e \in {0, 1}, c \in C16, x \in R15})
             = 2 * Cardinality(C16) * Cardinality(R15)
        /\ \A f, g, p, q \in Fields :
             Make(f, p) = Make(g, q) => f = g /\ p = q
ASSUME Laws
=============================================================================
