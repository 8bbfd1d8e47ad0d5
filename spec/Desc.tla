---------------------------------- MODULE Desc ----------------------------------
(* A process's descriptor table and the helpers of rcpr/socket_utilities.h.   *)
(*   T  : descriptor -> file        (open file description)                   *)
(*   Fl : file -> set of flags      {"nb", "ap"}                              *)
(* The bounded design is the hand-over protocol the helpers exist for: before *)
(* exec, descriptors are moved clear of the low numbers, set to the numbers   *)
(* the new program expects, and every other descriptor is closed.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxFd, MaxVars, EmitEdges

Without(T, D) == [x \in DOMAIN T \ D |-> T[x]]
Put(T, fd, f) == [x \in DOMAIN T \cup {fd} |-> IF x = fd THEN f ELSE T[x]]
Range(q) == {q[i] : i \in 1..Len(q)}
Distinct(q) == Cardinality(Range(q)) = Len(q)
Pairs(x) == [i \in 1..(Len(x) \div 2) |-> <<x[2 * i - 1], x[2 * i]>>]

(* ---- move_descriptors: relation between before and after ------------------*)
(* every variable names the file it named, at or above the threshold, in a    *)
(* place that was its own or free; nothing else is touched.                   *)
Moved(T, T2, thr, b, a) ==
    /\ Len(a) = Len(b) /\ Distinct(a)
    /\ \A i \in 1..Len(b) : /\ a[i] >= thr
                            /\ a[i] = b[i] \/ a[i] \notin DOMAIN T
    /\ LET keep == Without(T, Range(b)) IN
       /\ DOMAIN T2 = DOMAIN keep \cup Range(a)
       /\ \A x \in DOMAIN keep : T2[x] = T[x]
       /\ \A i \in 1..Len(b) : T2[a[i]] = T[b[i]]
(* a failure loses nothing: every variable that named a file still does.      *)
MoveFailed(T, T2, thr, b, a) ==
    /\ Len(a) = Len(b)
    /\ \A i \in 1..Len(b) :
          IF b[i] \in DOMAIN T THEN a[i] \in DOMAIN T2 /\ T2[a[i]] = T[b[i]]
                                    /\ (a[i] = b[i] \/ a[i] \notin DOMAIN T)
          ELSE a[i] = b[i]
    /\ \A x \in DOMAIN T \ Range(b) : x \in DOMAIN T2 /\ T2[x] = T[x]
    /\ DOMAIN T2 \subseteq DOMAIN T \cup Range(a)
    /\ Cardinality(DOMAIN T2) = Cardinality(DOMAIN T)
(* the place the code picks in the bounded design: any free one. *)
FreeAbove(T, thr) == {x \in thr..MaxFd : x \notin DOMAIN T}

(* ---- setfds: pairs, one after the other -----------------------------------*)
SetOne(T, p) == IF p[1] = p[2] THEN T ELSE Without(Put(T, p[2], T[p[1]]), {p[1]})
RECURSIVE SetN(_, _, _)
SetN(T, ps, n) == IF n = 0 THEN T ELSE SetOne(SetN(T, ps, n - 1), ps[n])
SetOk(T, ps, lim) == \A i \in 1..Len(ps) :
    /\ ps[i][1] \in DOMAIN SetN(T, ps, i - 1)
    /\ ps[i][2] \in 0..lim - 1 \/ ps[i][1] = ps[i][2]

CloseAbove(T, fd) == Without(T, {x \in DOMAIN T : x > fd})

(* ---- the bounded design ---------------------------------------------------*)
VARIABLES T, T0, vr, tg, pc, act
vars == <<T, T0, vr, tg, pc, act>>
Fds == 0..MaxFd
Seqs(S) == UNION {{q \in [1..n -> S] : Distinct(q)} : n \in 1..MaxVars}
Init == /\ T = <<>> /\ T0 = <<>> /\ vr = <<>> /\ tg = <<>> /\ pc = <<"lay">>
        /\ act = <<>>
Begin == /\ pc = <<"lay">>
         /\ \E D \in SUBSET Fds : D # {} /\ \E q \in Seqs(D) :
            \E thr \in Len(q)..(MaxFd - Len(q)) :
            \E g \in {h \in Seqs(0..thr - 1) : Len(h) = Len(q)} :
              /\ T' = [x \in D |-> x] /\ T0' = T' /\ vr' = q /\ tg' = g
              (* enough free places above the threshold *)
              /\ Cardinality({x \in thr..MaxFd : x \notin D}) >=
                   Cardinality({i \in 1..Len(q) : q[i] < thr})
              /\ pc' = <<"move", thr, 1>>
              /\ act' = [lay |-> D, thr |-> thr, b |-> q, to |-> g]
Move == /\ pc[1] = "move"
        /\ LET thr == pc[2] i == pc[3] IN
           IF i > Len(vr) THEN pc' = <<"set", 1>> /\ UNCHANGED <<T, vr>>
           ELSE /\ IF vr[i] >= thr THEN UNCHANGED <<T, vr>>
                   ELSE \E x \in FreeAbove(T, thr) :
                          /\ T' = Without(Put(T, x, T[vr[i]]), {vr[i]})
                          /\ vr' = [vr EXCEPT ![i] = x]
                /\ pc' = <<"move", thr, i + 1>>
        /\ UNCHANGED <<T0, tg, act>>
Set == /\ pc[1] = "set"
       /\ LET i == pc[2] IN
          IF i > Len(vr) THEN pc' = <<"close">> /\ UNCHANGED T
          ELSE T' = SetOne(T, <<vr[i], tg[i]>>) /\ pc' = <<"set", i + 1>>
       /\ UNCHANGED <<T0, vr, tg, act>>
Top == CHOOSE m \in Range(tg) : \A x \in Range(tg) : x <= m
Close == /\ pc = <<"close">> /\ T' = CloseAbove(T, Top) /\ pc' = <<"done">>
         /\ UNCHANGED <<T0, vr, tg, act>>
Next == IF pc = <<"lay">> THEN Begin ELSE Move \/ Set \/ Close
Spec == Init /\ [][Next]_vars
(* nothing that has to be handed over is lost at any point, and no two        *)
(* variables come to share a descriptor.                                      *)
NoLoss == pc # <<"lay">> /\ pc[1] = "move" =>
    /\ Distinct(vr)
    /\ \A i \in 1..Len(vr) : vr[i] \in DOMAIN T /\ T[vr[i]] = act.b[i]
    /\ \A x \in DOMAIN T0 \ Range(act.b) : x \in DOMAIN T /\ T[x] = T0[x]
(* the new program sees exactly what it was promised. *)
Promised == pc = <<"done">> =>
    /\ \A i \in 1..Len(tg) : tg[i] \in DOMAIN T /\ T[tg[i]] = act.b[i]
    /\ \A x \in DOMAIN T : x \in Range(tg) \/
          (x < Top /\ x \in DOMAIN T0 /\ T[x] = T0[x] /\ x \notin Range(act.b))
EmitE == EmitEdges /\ pc = <<"lay">> => PrintT(ToJson([f |-> 0, a |-> act', t |-> 1]))
=============================================================================
