-------------------------------- MODULE RbAlg --------------------------------
(* The balancing algorithm behind rcpr/rbtree.h, as an explicit state        *)
(* machine over parent/child/colour maps (node = key, 0 = the nil node).     *)
(* TLC visits every tree shape reachable with keys 1..N and proves the       *)
(* red-black invariants of the algorithm; every transition it finds is       *)
(* emitted and becomes a script for the real code.                           *)
EXTENDS Integers, FiniteSets, TLC, Json
CONSTANT N, EmitEdges
VARIABLES t, act

Nodes == 0..N
Empty == [root |-> 0, ch |-> [d \in 0..1 |-> [n \in Nodes |-> 0]],
          p |-> [n \in Nodes |-> 0], c |-> [n \in Nodes |-> 0]]

SetChild(x, par, old, new) ==
    IF par = 0 THEN [x EXCEPT !.root = new]
    ELSE IF x.ch[0][par] = old THEN [x EXCEPT !.ch[0][par] = new]
    ELSE [x EXCEPT !.ch[1][par] = new]

(* d = 0: left rotation (right child moves up); d = 1: right rotation. *)
Rotate(x, n, d) ==
    LET y == x.ch[1 - d][n]
        b == x.ch[d][y]
        x1 == [x EXCEPT !.ch[1 - d][n] = b]
        x2 == IF b # 0 THEN [x1 EXCEPT !.p[b] = n] ELSE x1
        x3 == SetChild([x2 EXCEPT !.p[y] = x.p[n]], x.p[n], n, y)
    IN [x3 EXCEPT !.ch[d][y] = n, !.p[n] = y]

RECURSIVE InsertFix(_, _)
InsertFix(x, z) ==
    LET pz == x.p[z]  g == x.p[pz] IN
    IF x.c[pz] = 0 \/ pz = 0 THEN [x EXCEPT !.c[x.root] = 0]
    ELSE LET d == IF pz = x.ch[0][g] THEN 0 ELSE 1
             u == x.ch[1 - d][g]
         IN IF x.c[u] = 1 /\ u # 0
            THEN InsertFix([x EXCEPT !.c[pz] = 0, !.c[u] = 0, !.c[g] = 1], g)
            ELSE LET inner == z = x.ch[1 - d][pz]
                     x1 == IF inner THEN Rotate(x, pz, d) ELSE x
                     z1 == IF inner THEN pz ELSE z
                     p1 == x1.p[z1]
                     g1 == x1.p[p1]
                     x2 == [x1 EXCEPT !.c[p1] = 0, !.c[g1] = 1]
                 IN InsertFix(Rotate(x2, g1, 1 - d), z1)

RECURSIVE Leaf(_, _, _)
Leaf(x, n, k) == LET d == IF k < n THEN 0 ELSE 1 IN
                 IF x.ch[d][n] = 0 THEN n ELSE Leaf(x, x.ch[d][n], k)

InTree(x) == {n \in 1..N : x.root = n \/ x.p[n] # 0}

InsertKey(x, k) ==
    IF x.root = 0 THEN [x EXCEPT !.root = k, !.c[k] = 0]
    ELSE LET y == Leaf(x, x.root, k)
             d == IF k < y THEN 0 ELSE 1
         IN InsertFix([x EXCEPT !.ch[d][y] = k, !.p[k] = y, !.c[k] = 1], k)

RECURSIVE Min(_, _)
Min(x, n) == IF x.ch[0][n] = 0 THEN n ELSE Min(x, x.ch[0][n])

Transplant(x, u, v) ==
    LET x1 == SetChild(x, x.p[u], u, v) IN [x1 EXCEPT !.p[v] = x.p[u]]

RECURSIVE DeleteFix(_, _)
DeleteFix(x, n) ==
    IF n = x.root \/ x.c[n] = 1 THEN [x EXCEPT !.c[n] = 0]
    ELSE LET pn == x.p[n]
             d == IF n = x.ch[0][pn] THEN 0 ELSE 1
             w0 == x.ch[1 - d][pn]
             x1 == IF x.c[w0] = 1
                   THEN Rotate([x EXCEPT !.c[w0] = 0, !.c[pn] = 1], pn, d)
                   ELSE x
             w == x1.ch[1 - d][pn]
         IN IF x1.c[x1.ch[0][w]] = 0 /\ x1.c[x1.ch[1][w]] = 0
            THEN DeleteFix([x1 EXCEPT !.c[w] = 1], pn)
            ELSE LET near == x1.ch[d][w]
                     far == x1.ch[1 - d][w]
                     x2 == IF x1.c[far] = 0
                           THEN Rotate([x1 EXCEPT !.c[near] = 0,
                                                  !.c[w] = 1], w, 1 - d)
                           ELSE x1
                     w2 == x2.ch[1 - d][pn]
                     x3 == [x2 EXCEPT !.c[w2] = x2.c[pn], !.c[pn] = 0,
                                      !.c[x2.ch[1 - d][w2]] = 0]
                     x4 == Rotate(x3, pn, d)
                 IN [x4 EXCEPT !.c[x4.root] = 0]

Tidy(x, z) == [x EXCEPT !.p[0] = 0, !.c[0] = 0, !.p[z] = 0, !.c[z] = 0,
                        !.ch[0][z] = 0, !.ch[1][z] = 0,
                        !.ch[0][0] = 0, !.ch[1][0] = 0]

DeleteKey(x, z) ==
    LET l == x.ch[0][z]  r == x.ch[1][z] IN
    IF l = 0 \/ r = 0
    THEN LET m == IF l = 0 THEN r ELSE l
             x1 == Transplant(x, z, m)
         IN Tidy(IF x.c[z] = 0 THEN DeleteFix(x1, m) ELSE x1, z)
    ELSE LET y == Min(x, r)
             m == x.ch[1][y]
             x1 == IF x.p[y] = z THEN [x EXCEPT !.p[m] = y]
                   ELSE LET a == Transplant(x, y, m)
                        IN [a EXCEPT !.ch[1][y] = r, !.p[r] = y]
             x2 == Transplant(x1, z, y)
             x3 == [x2 EXCEPT !.ch[0][y] = l, !.p[l] = y, !.c[y] = x.c[z]]
         IN Tidy(IF x.c[y] = 0 THEN DeleteFix(x3, m) ELSE x3, z)

Init == t = Empty /\ act = <<"init", 0>>
Next == \/ \E k \in 1..N : /\ k \notin InTree(t)
                           /\ t' = InsertKey(t, k)
                           /\ act' = <<"ins", k>>
        \/ \E k \in InTree(t) : /\ t' = DeleteKey(t, k)
                                /\ act' = <<"del", k>>
Spec == Init /\ [][Next]_<<t, act>>
View == t

Flat(x) == <<x.root, x.ch[0], x.ch[1], x.c>>
Emit == EmitEdges => PrintT(ToJson([f |-> Flat(t), a |-> act', t |-> Flat(t')]))

RECURSIVE Rb(_, _)
Rb(x, n) ==   \* <<valid, black height, size>>
    IF n = 0 THEN <<TRUE, 1, 0>>
    ELSE LET a == Rb(x, x.ch[0][n])  b == Rb(x, x.ch[1][n]) IN
         << /\ a[1] /\ b[1] /\ a[2] = b[2]
            /\ x.c[n] = 1 => x.c[x.ch[0][n]] = 0 /\ x.c[x.ch[1][n]] = 0
            /\ x.ch[0][n] # 0 => x.p[x.ch[0][n]] = n
            /\ x.ch[1][n] # 0 => x.p[x.ch[1][n]] = n,
            a[2] + (1 - x.c[n]), a[3] + b[3] + 1>>
Valid == LET v == Rb(t, t.root) IN
         v[1] /\ t.c[t.root] = 0 /\ v[3] = Cardinality(InTree(t))
RECURSIVE Height(_, _)
Height(x, n) == IF n = 0 THEN 0 ELSE
    LET a == Height(x, x.ch[0][n])  b == Height(x, x.ch[1][n])
    IN 1 + (IF a > b THEN a ELSE b)
Balanced == 2 ^ Height(t, t.root)
              <= (Cardinality(InTree(t)) + 1) * (Cardinality(InTree(t)) + 1)
RECURSIVE Sorted(_, _, _, _)
Sorted(x, n, lo, hi) ==
    n = 0 \/ (lo < n /\ n < hi /\ Sorted(x, x.ch[0][n], lo, n)
                              /\ Sorted(x, x.ch[1][n], n, hi))
Ordered == Sorted(t, t.root, 0, N + 1)
=============================================================================
