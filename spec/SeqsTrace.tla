------------------------------- MODULE SeqsTrace -------------------------------
EXTENDS TraceBase
CONSTANTS Qs
VARIABLES alive, seq
Q == INSTANCE Seqs WITH Kind <- "list", Ids <- {}, MaxLen <- 0,
                        EmitEdges <- FALSE, act <- <<>>
vars == <<alive, seq>>

Failed == E.st = "oom" /\ Oom /\ E.rel = <<>> /\ UNCHANGED vars
Ok == E.st = "ok" /\ ~Oom
Kept == E.rel = <<>>

TNew == IsEvent("new") /\ ((Ok /\ Kept /\ Q!Create(E.q)) \/ (Failed /\ E.null = 1))
TFree == IsEvent("free") /\ E.st = "ok" /\ NoDup(E.rel)
         /\ Q!Free(E.q, SeqSet(E.rel))
TIh == IsEvent("ih") /\ ((Ok /\ Kept /\ Q!InsertHead(E.q, E.v)) \/ (Failed))
TAt == IsEvent("at") /\ ((Ok /\ Kept /\ Q!AppendTail(E.q, E.v)) \/ (Failed))
TAp == IsEvent("ap") /\ ((Ok /\ Kept /\ Q!AppendAfter(E.q, E.i, E.v)) \/ (Failed))
TIb == IsEvent("ib") /\ ((Ok /\ Kept /\ Q!InsertBefore(E.q, E.i, E.v)) \/ (Failed))
TCs == IsEvent("cs") /\ E.st = "ok" /\ Kept /\ Q!ChildSwap(E.q, E.i, E.v, E.r)
TPop == IsEvent("pop") /\ E.st = "ok" /\ Kept /\ Q!Pop(E.q, E.r)
TFill == IsEvent("fill") /\ E.st = "ok" /\ Kept /\ Q!Fill(E.q, E.v, E.n)
TDrain == IsEvent("drain") /\ E.st = "ok" /\ Kept
          /\ Q!Drain(E.q, Len(E.r), E.r)
TNp == IsEvent("np") /\ E.st = "ok" /\ Kept /\ Q!NextPop(E.q, E.i, E.r)
TClear == IsEvent("clear") /\ E.st = "ok" /\ NoDup(E.rel)
          /\ Q!Clear(E.q, SeqSet(E.rel))
TSwap == IsEvent("swap") /\ Kept /\ Q!Swap(E.q, E.u)
(* a node op addressed past the last node, as the walk found it. *)
TNone == IsEvent("none") /\ E.i > Len(seq[E.q]) /\ UNCHANGED vars
(* what a reader sees: forward (and backward, for the doubly linked list),   *)
(* the head's and tail's children and the count.                             *)
First(x) == IF x = <<>> THEN -1 ELSE Head(x)
Last(x) == IF x = <<>> THEN -1 ELSE x[Len(x)]
TWalk == /\ IsEvent("walk")
         /\ E.f = seq[E.q]
         /\ Has("b") => E.b = Rev(seq[E.q])
         /\ E.n = Len(seq[E.q])
         /\ E.h = First(seq[E.q]) /\ E.t = Last(seq[E.q])
         /\ UNCHANGED vars
TCount == IsEvent("count") /\ E.n = Len(seq[E.q]) /\ UNCHANGED vars
TEnd == IsEvent("end") /\ E.live = 0 /\ alive = {} /\ UNCHANGED vars

Init == TBInit /\ Q!SqInit
Next == \/ /\ More
           /\ \/ TNew \/ TFree \/ TIh \/ TAt \/ TAp \/ TIb \/ TCs \/ TPop
              \/ TNp \/ TClear \/ TSwap \/ TNone \/ TFill \/ TDrain \/ TWalk \/ TCount \/ TEnd
        \/ TBDone(vars)
Spec == Init /\ [][Next]_<<s, l, vars>>
=============================================================================
