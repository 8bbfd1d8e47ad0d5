------------------------------- MODULE OwnTrace -------------------------------
EXTENDS TraceBase
CONSTANTS Ids
VARIABLES kind, seq, own, bad, forged
O == INSTANCE Own WITH Use <- {}, MaxLen <- 0, Sour <- FALSE, Forging <- FALSE, EmitEdges <- FALSE, Depth <- 0, act <- <<>>
vars == <<kind, seq, own, bad, forged>>

(* blocks go back where they came from; nothing is released twice. *)
Clean == E.foreign = 0 /\ E.twice = 0 /\ E.fc = 0
BadTable == "ERROR_GENERAL_BAD_VTABLE"
Ok == E.st = "ok" /\ ~Oom /\ (Has("rcf") => E.rcf = 0) /\ Clean
Kept == E.rel = <<>>
Failed == E.st = "oom" /\ Oom /\ Kept /\ Clean /\ UNCHANGED vars
Sure == Ok /\ Kept /\ (Has("fa") => E.fa = 0)
(* a forged table is told apart before anything of it is called (fc = 0).      *)
Refused == E.st = BadTable /\ ~Oom /\ Kept /\ Clean /\ (Has("rcf") => E.rcf = 0)
(* what is released is released once, and the operation fails exactly if some *)
(* of it refused or a block could not be handed back.                         *)
Rel == SeqSet(E.rel)
Stuck == E.rcf = 1
(* M: the objects it set out to release. *)
Told(M) == /\ ~Oom /\ Clean /\ NoDup(E.rel)
           /\ (E.st # "ok") = \/ Stuck \/ Rel \cap bad # {}
                              \/ \E y \in forged : y \in M \/ own[y] \in Rel
           /\ (~Stuck /\ bad = {} /\ E.st # "ok" => E.st = BadTable)

TLeaf == IsEvent("leaf") /\ O!Leaf(E.i, E.b = 1)
TNew == IsEvent("new") /\ ((Sure /\ O!New(E.i, E.k, E.x)) \/ (Failed))
TPut == IsEvent("put") /\ ((Sure /\ O!Put(E.c, E.x)) \/ (Failed))
TPutH == IsEvent("puth") /\ ((Sure /\ O!PutHead(E.c, E.x)) \/ (Failed))
TAp == IsEvent("ap") /\ ((Sure /\ O!PutAfter(E.c, E.n, E.x)) \/ (Failed))
TIb == IsEvent("ib") /\ ((Sure /\ O!PutBefore(E.c, E.n, E.x)) \/ (Failed))
Lost(M) == Stuck /\ Told(M) /\ E.r = 0
TPop == /\ IsEvent("pop")
        /\ (Sure /\ O!Pop(E.c, E.r)) \/ (Lost({}) /\ O!PopLost(E.c, 1, Rel))
TNp == /\ IsEvent("np")
       /\ \/ (Sure /\ O!NextPop(E.c, E.n, E.r))
          \/ (Lost({}) /\ O!PopLost(E.c, E.n + 1, Rel))
TPeek == IsEvent("peek") /\ Sure /\ O!Peek(E.c, E.r)
(* an entry taken by a node that cannot be handed back is the caller's, or
   gone. *)
TTake == /\ IsEvent("take")
         /\ \/ (Sure /\ O!Take(E.c, E.x, E.r))
            \/ (Stuck /\ Told({}) /\ Kept /\ E.r # 0 /\ O!Take(E.c, E.x, E.r))
            \/ (Lost({E.x}) /\ O!Drop(E.c, E.x, Rel))
TDrop == IsEvent("drop") /\ E.r = 0 /\ Told({E.x}) /\ O!Drop(E.c, E.x, Rel)
TAbsent == /\ E.op \in {"take", "drop"} /\ IsEvent(E.op)
           /\ E.x \notin SeqSet(seq[E.c]) /\ E.r = 0
           /\ E.st = "ERROR_RBTREE_NOT_FOUND" /\ Kept /\ Clean
           /\ UNCHANGED vars
TCs == IsEvent("cs") /\ Sure /\ O!ChildSwap(E.c, E.n, E.x, E.r)
TSwap == IsEvent("swap") /\ Sure /\ O!Swap(E.c, E.d)
TClear == /\ IsEvent("clear")
          /\ Told(O!Prefix(E.c, Len(seq[E.c]) - E.left)) /\ (E.st = "ok" => E.left = 0)
          /\ O!ClearTo(E.c, E.left, Rel)
TFree == /\ IsEvent("free")
         /\ IF E.i \in forged THEN Refused /\ UNCHANGED vars
            ELSE Told({}) /\ O!Free(E.i, Rel)
TForge == IsEvent("forge") /\ O!Forge(E.i)
TMend == IsEvent("mend") /\ (O!Mend \/ (forged = {} /\ UNCHANGED vars))
(* what needs memory of an allocator with a forged table fails, and changes    *)
(* nothing.                                                                    *)
TNoAlloc == /\ E.op \in {"new", "put", "puth", "ap", "ib"} /\ IsEvent(E.op)
            /\ Has("fa") /\ E.fa = 1 /\ E.st # "ok" /\ ~Oom /\ Kept /\ Clean
            /\ UNCHANGED vars
(* once every root is released nothing exists and no memory is held. *)
TEnd == /\ IsEvent("end") /\ Clean
        /\ E.live = 0 /\ E.blocks = 0 /\ \A x \in Ids : ~O!Is(x)
        /\ UNCHANGED vars

Init == TBInit /\ O!OwnInit
Next == \/ /\ More
           /\ \/ TLeaf \/ TNew \/ TPut \/ TPutH \/ TAp \/ TIb \/ TPop \/ TNp
              \/ TPeek \/ TTake \/ TDrop \/ TAbsent \/ TCs \/ TSwap \/ TClear \/ TFree \/ TForge
              \/ TMend \/ TNoAlloc
              \/ TEnd
        \/ TBDone(vars)
Spec == Init /\ [][Next]_<<s, l, vars>>
=============================================================================
