----------------------------- MODULE RbtreeTrace -----------------------------
EXTENDS TraceBase
CONSTANTS Trees, CheckShape
VARIABLES alive, ent, ord
R == INSTANCE Rbtree WITH Keys <- {}, Ids <- {}
vars == <<alive, ent, ord>>

Failed == E.st = "oom" /\ Oom /\ E.rel = <<>> /\ UNCHANGED vars

TNew == IsEvent("new") /\ \/ E.st = "ok" /\ ~Oom /\ R!Create(E.t, [c |-> E.c, d |-> E.d]) /\ E.rel = <<>>
                          \/ Failed /\ E.null = 1
(* the user's functions are called with the context of the entries' order.   *)
Ctx == SeqSet(E.cx) \subseteq {ord[E.t].c}
TFree == IsEvent("free") /\ E.st = "ok" /\ NoDup(E.rel)
         /\ R!Free(E.t, SeqSet(E.rel))
TIns == IsEvent("ins") /\ Ctx
        /\ \/ E.st = "ok" /\ ~Oom /\ E.rel = <<>>
              /\ R!Insert(E.t, E.id, E.k)
           \/ Failed
(* the search visits a number of keys logarithmic in the size. *)
Pow2(n) == 2 ^ n
LogOk(h, n) == h <= 30 /\ Pow2(h) <= (n + 1) * (n + 1)
CostOk == IF ~CheckShape \/ E.cmp <= 4 THEN TRUE
          ELSE LogOk((E.cmp - 3) \div 2, Cardinality(ent[E.t]))
TFill == IsEvent("fill") /\ Ctx /\ E.st = "ok" /\ E.rel = <<>>
         /\ R!Fill(E.t, E.id, E.n, E.step, E.mod)
TDrain == IsEvent("drain") /\ Ctx /\ E.st = "ok" /\ E.rel = <<>> /\ CostOk
          /\ R!Drain(E.t, E.r, E.step, E.mod)
TFind == IsEvent("find") /\ Ctx /\ E.rel = <<>> /\ CostOk
         /\ \/ E.st = "ok" /\ R!Found(E.t, E.k, E.r)
            \/ E.st = "ERROR_RBTREE_NOT_FOUND" /\ E.r = -1
               /\ R!NotFound(E.t, E.k)
Gone == IF E.give = 1 THEN E.r ELSE IF Len(E.rel) = 1 THEN E.rel[1] ELSE -1
TDel == IsEvent("del") /\ Ctx
        /\ \/ E.st = "ok" /\ R!Delete(E.t, E.k, Gone, E.give = 1, SeqSet(E.rel))
           \/ E.st = "ERROR_RBTREE_NOT_FOUND" /\ E.r = -1 /\ E.rel = <<>>
              /\ R!NotFound(E.t, E.k)
TDelN == IsEvent("deln") /\ E.st = "ok" /\ Gone = E.id
         /\ \E e \in ent[E.t] : e.id = E.id
              /\ R!Delete(E.t, e.k, e.id, E.give = 1, SeqSet(E.rel))
(* node operations asked of an empty tree, or past its last node. *)
TEmpty == IsEvent("empty") /\ ent[E.t] = {} /\ UNCHANGED vars
TShort == IsEvent("short") /\ E.i >= Cardinality(ent[E.t]) /\ UNCHANGED vars
TClear == IsEvent("clear") /\ E.st = "ok" /\ NoDup(E.rel)
          /\ R!Clear(E.t, SeqSet(E.rel))
TSwap == IsEvent("swap") /\ E.rel = <<>> /\ R!Swap(E.t, E.u)
TWalk == IsEvent("walk") /\ R!WalkOk(E.t, E.f, E.k, E.b, E.n) /\ UNCHANGED vars

(* A pre-order dump: 0 is an empty subtree, otherwise key + 1, red (1/0),    *)
(* left, right.  Parse returns the position after the subtree, its size,     *)
(* height and black height, its key range, and whether it is a valid         *)
(* red-black subtree.                                                        *)
RECURSIVE Parse(_, _)
Parse(sh, i) ==
    IF sh[i] = 0
    THEN [nx |-> i + 1, n |-> 0, h |-> 0, bh |-> 1, lo |-> 0, hi |-> 0,
          red |-> 0, ok |-> TRUE]
    ELSE LET k == ord[E.t].d * sh[i]
             a == Parse(sh, i + 2)
             b == Parse(sh, a.nx)
         IN [nx |-> b.nx, n |-> a.n + b.n + 1,
             h |-> 1 + (IF a.h > b.h THEN a.h ELSE b.h),
             bh |-> a.bh + (IF sh[i + 1] = 1 THEN 0 ELSE 1),
             lo |-> IF a.n = 0 THEN k ELSE a.lo,
             hi |-> IF b.n = 0 THEN k ELSE b.hi,
             red |-> sh[i + 1],
             ok |-> /\ a.ok /\ b.ok
                    /\ a.bh = b.bh
                    /\ sh[i + 1] = 1 => a.red = 0 /\ b.red = 0
                    /\ a.n > 0 => a.hi <= k
                    /\ b.n > 0 => k <= b.lo]
ShapeOk == LET p == Parse(E.sh, 1) IN
           /\ p.nx = Len(E.sh) + 1
           /\ p.ok /\ p.red = 0
           /\ p.n = E.n /\ p.n = Cardinality(ent[E.t])
           /\ LogOk(p.h, p.n)
           /\ E.pok = 1
TShape == IsEvent("shape") /\ ShapeOk /\ UNCHANGED vars
TEnd == IsEvent("end") /\ E.live = 0 /\ alive = {} /\ UNCHANGED vars

Init == TBInit /\ R!RbInit
Next == \/ /\ More
           /\ \/ TNew \/ TFree \/ TIns \/ TFind \/ TDel \/ TDelN \/ TClear
              \/ TEmpty \/ TShort \/ TSwap \/ TFill \/ TDrain \/ TWalk \/ TShape \/ TEnd
        \/ TBDone(vars)
Spec == Init /\ [][Next]_<<s, l, vars>>
SingleOwner == R!SingleOwner
=============================================================================
