---------------------------------- MODULE Own ----------------------------------
(* Ownership in rcpr: a forest.  Every resource -- plain, or a container that   *)
(* itself holds resources (slist, list, queue, tree, message) -- is owned by   *)
(* the user (own = 0) or by exactly one container.  Moving a resource in or    *)
(* out of a container moves its whole subtree; releasing or clearing releases  *)
(* exactly the subtree, each member once; everything else keeps its owner.     *)
(*                                                                             *)
(* kind[x] "none": no such object.  seq[c]: the children of c's nodes in       *)
(* order, 0 for a node without a resource; trees are ordered by identity.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Ids
VARIABLES kind, seq, own, bad, forged
ownvars == <<kind, seq, own, bad, forged>>

OwnInit == /\ kind = [x \in Ids |-> "none"]
           /\ seq = [x \in Ids |-> <<>>]
           /\ own = [x \in Ids |-> 0]
           /\ bad = {} /\ forged = {}

Lists == {"slist", "list"}
Takes == {"slist", "list", "queue", "tree"}    (* things can be put into *)
Swaps == {"slist", "list", "tree"}
Kinds == Takes \cup {"msg"}
Is(x) == kind[x] # "none"
Mine(x) == Is(x) /\ own[x] = 0
Kids(c) == {seq[c][i] : i \in 1..Len(seq[c])} \ {0}
RECURSIVE Sub(_)
Sub(x) == {x} \cup UNION {Sub(y) : y \in Kids(x)}
SubOf(S) == UNION {Sub(y) : y \in S}
(* an object with a forged method table cannot be released: what releasing x   *)
(* gets at stops there, and the forged object is left to the user.             *)
RECURSIVE Reach(_)
Reach(x) == IF x \in forged THEN {} ELSE {x} \cup UNION {Reach(y) : y \in Kids(x)}
ReachOf(S) == UNION {Reach(y) : y \in S}

(* refusals: a resource of bad fails its release, and so does whatever holds   *)
(* it.  The failure is reported, but it spares nothing: the resource is gone,  *)
(* and whatever is released with it goes too.  Only clearing a sequence stops  *)
(* at the entry that failed; what is left is a sequence still.  A node that    *)
(* the allocator will not take back is a failure of the same sort.             *)
Fails(x) == Sub(x) \cap (bad \cup forged) # {}
Prefix(c, n) == {seq[c][i] : i \in 1..n} \ {0}
FirstFail(c) == CHOOSE i \in 1..Len(seq[c]) :
                  /\ seq[c][i] # 0 /\ Fails(seq[c][i])
                  /\ \A k \in 1..(i - 1) : seq[c][k] = 0 \/ ~Fails(seq[c][k])

Ins(q, i, v) == SubSeq(q, 1, i) \o <<v>> \o SubSeq(q, i + 1, Len(q))
Del(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
(* where x goes in an ascending sequence. *)
Place(q, x) == Cardinality({i \in 1..Len(q) : q[i] < x})

(* the objects of S cease to exist. *)
Gone(S) ==
    /\ kind' = [x \in Ids |-> IF x \in S THEN "none" ELSE kind[x]]
    /\ own' = [x \in Ids |-> IF x \in S \/ own[x] \in S THEN 0 ELSE own[x]]
    /\ bad' = bad \ S
    /\ UNCHANGED forged
(* the same, and c lets go of all of K. *)
GoneFrom(S, K) ==
    /\ kind' = [x \in Ids |-> IF x \in S THEN "none" ELSE kind[x]]
    /\ own' = [x \in Ids |-> IF x \in S \cup K \/ own[x] \in S THEN 0 ELSE own[x]]
    /\ bad' = bad \ S
    /\ UNCHANGED forged

Leaf(x, b) == /\ ~Is(x) /\ kind' = [kind EXCEPT ![x] = "leaf"]
              /\ bad' = (IF b THEN bad \cup {x} ELSE bad)
              /\ UNCHANGED <<seq, own, forged>>
(* a new container; a message is made with its payload, p (0: none). *)
New(x, k, p) ==
    /\ ~Is(x) /\ k \in Kinds /\ p # x
    /\ p # 0 => k = "msg" /\ Mine(p)
    /\ kind' = [kind EXCEPT ![x] = k]
    /\ IF p = 0 THEN UNCHANGED <<seq, own>>
       ELSE seq' = [seq EXCEPT ![x] = <<p>>] /\ own' = [own EXCEPT ![p] = x]
    /\ UNCHANGED <<bad, forged>>
MayHold(c, x) == Is(c) /\ Mine(x) /\ c \notin Sub(x)
PutAt(c, i, x) == /\ MayHold(c, x) /\ i \in 0..Len(seq[c])
                  /\ seq' = [seq EXCEPT ![c] = Ins(seq[c], i, x)]
                  /\ own' = [own EXCEPT ![x] = c]
                  /\ UNCHANGED <<kind, bad, forged>>
Put(c, x) == /\ kind[c] \in Takes
             /\ PutAt(c, IF kind[c] = "tree" THEN Place(seq[c], x)
                         ELSE Len(seq[c]), x)
PutHead(c, x) == kind[c] \in Lists \cup {"queue"} /\ PutAt(c, 0, x)
PutAfter(c, i, x) == kind[c] \in Lists /\ i \in 1..Len(seq[c]) /\ PutAt(c, i, x)
PutBefore(c, i, x) == kind[c] = "list" /\ i \in 1..Len(seq[c])
                      /\ PutAt(c, i - 1, x)
(* node i of c, and its child r, leave c: r is the user's. *)
Out(c, i, r) == /\ r = seq[c][i]
                /\ seq' = [seq EXCEPT ![c] = Del(seq[c], i)]
                /\ own' = (IF r = 0 THEN own ELSE [own EXCEPT ![r] = 0])
                /\ UNCHANGED <<kind, bad, forged>>
Nothing(r) == r = 0 /\ UNCHANGED ownvars
Pop(c, r) == /\ kind[c] \in (Takes \ {"tree"}) \cup {"msg"}
             /\ IF seq[c] = <<>> THEN Nothing(r) ELSE Out(c, 1, r)
NextPop(c, i, r) == /\ kind[c] = "slist" /\ i \in 1..Len(seq[c])
                    /\ IF i = Len(seq[c]) THEN Nothing(r) ELSE Out(c, i + 1, r)
Peek(c, r) == /\ kind[c] = "msg"
              /\ r = (IF seq[c] = <<>> THEN 0 ELSE seq[c][1])
              /\ UNCHANGED ownvars
At(c, x) == CHOOSE i \in 1..Len(seq[c]) : seq[c][i] = x
Take(c, x, r) == /\ kind[c] = "tree" /\ x \in Kids(c) /\ Out(c, At(c, x), r)
(* remove a tree entry and release it. *)
Drop(c, x, rel) ==
    /\ kind[c] = "tree" /\ x \in Kids(c) /\ rel = Reach(x)
    /\ GoneFrom(rel, {x})
    /\ seq' = [y \in Ids |-> IF y \in rel THEN <<>>
                             ELSE IF y = c THEN Del(seq[c], At(c, x))
                             ELSE seq[y]]
ChildSwap(c, i, x, r) ==
    /\ kind[c] \in Lists /\ i \in 1..Len(seq[c])
    /\ x # 0 => MayHold(c, x)
    /\ r = seq[c][i]
    /\ seq' = [seq EXCEPT ![c][i] = x]
    /\ own' = [y \in Ids |-> IF y = x THEN c ELSE IF y = r THEN 0 ELSE own[y]]
    /\ UNCHANGED <<kind, bad, forged>>
Swap(c, d) ==
    /\ kind[c] \in Swaps /\ kind[d] = kind[c]
    /\ c = d \/ (c \notin Sub(d) /\ d \notin Sub(c))
    /\ seq' = [seq EXCEPT ![c] = seq[d], ![d] = seq[c]]
    /\ own' = [y \in Ids |-> IF y \in Kids(c) THEN d
                             ELSE IF y \in Kids(d) THEN c ELSE own[y]]
    /\ UNCHANGED <<kind, bad, forged>>
(* clear all but the last left nodes. *)
ClearTo(c, left, rel) ==
    /\ kind[c] \in Swaps /\ left \in 0..Len(seq[c])
    /\ kind[c] = "tree" => left = 0
    /\ LET n == Len(seq[c]) - left IN
       /\ rel = ReachOf(Prefix(c, n))
       /\ GoneFrom(rel, Prefix(c, n))
       /\ seq' = [y \in Ids |-> IF y \in rel THEN <<>>
                                ELSE IF y = c THEN SubSeq(seq[c], n + 1, n + left)
                                ELSE seq[y]]
(* where a clear that nothing disturbs ends. *)
Left(c) == IF kind[c] = "tree" \/ \A x \in Kids(c) : ~Fails(x) THEN 0
           ELSE Len(seq[c]) - FirstFail(c)
(* node i of c could not be handed back: its child is released with it. *)
PopLost(c, i, rel) ==
    /\ kind[c] \in Takes \ {"tree"} /\ i \in 1..Len(seq[c])
    /\ rel = (IF seq[c][i] = 0 THEN {} ELSE Reach(seq[c][i]))
    /\ GoneFrom(rel, {seq[c][i]})
    /\ seq' = [y \in Ids |-> IF y \in rel THEN <<>>
                             ELSE IF y = c THEN Del(seq[c], i) ELSE seq[y]]
Free(x, rel) ==
    /\ Mine(x) /\ x \notin forged /\ rel = Reach(x)
    /\ Gone(rel)
    /\ seq' = [y \in Ids |-> IF y \in rel THEN <<>> ELSE seq[y]]
Forge(x) == /\ Is(x) /\ x \notin forged /\ forged' = forged \cup {x}
            /\ UNCHANGED <<kind, seq, own, bad>>
Mend == forged # {} /\ forged' = {} /\ UNCHANGED <<kind, seq, own, bad>>

(* ---- the claims --------------------------------------------------------- *)
(* a resource sits in one place, the one its owner says. *)
OneOwner == \A c \in Ids, x \in Ids \cup {0} :
    x # 0 =>
    /\ Cardinality({i \in 1..Len(seq[c]) : seq[c][i] = x})
         = (IF own[x] = c THEN 1 ELSE 0)
OwnersLive == \A x \in Ids : /\ ~Is(x) => own[x] = 0 /\ seq[x] = <<>>
                             /\ own[x] # 0 => Is(own[x])
(* everything that exists hangs below something the user holds: nothing can   *)
(* leak, nothing can own itself.                                              *)
BadLive == /\ forged \subseteq {x \in Ids : Is(x)}
           /\ bad \subseteq {x \in Ids : kind[x] = "leaf"}
NoOrphans == {x \in Ids : Is(x)} = SubOf({x \in Ids : Mine(x)})

(* ---- bounded check and script generation -------------------------------- *)
CONSTANTS Use, MaxLen, Sour, Forging, EmitEdges, Depth   (* Depth > 0: simulation *)
(* Sour: with resources and allocators that refuse; Forging: with forged tables *)
VARIABLE act
A(x) == act' = IF Depth > 0 THEN Append(act, x) ELSE x
Fault(x) == UNCHANGED ownvars /\ A(<<"!1">> \o x)
Fresh == IF \A x \in Ids : Is(x) THEN {}
         ELSE {CHOOSE x \in Ids : ~Is(x) /\ \A y \in Ids : ~Is(y) => x <= y}
Room(c) == Len(seq[c]) < MaxLen
MCNext ==
    \/ \E x \in Fresh :
          \/ Leaf(x, FALSE) /\ A(<<"leaf", x>>)
          \/ Sour /\ Leaf(x, TRUE) /\ A(<<"leaf", x, 1>>)
          \/ \E k \in Use : New(x, k, 0) /\ A(<<"new", x, k, 0>>)
          \/ \E p \in Ids : "msg" \in Use /\ New(x, "msg", p)
                            /\ A(<<"new", x, "msg", 0, p>>)
          \/ \E p \in Ids : "msg" \in Use /\ Mine(p)
                            /\ Fault(<<"new", x, "msg", 0, p>>)
    \/ \E c, x \in Ids :
          \/ Room(c) /\ Put(c, x) /\ A(<<"put", c, x>>)
          \/ Room(c) /\ PutHead(c, x) /\ A(<<"puth", c, x>>)
          \/ Room(c) /\ kind[c] \in Takes /\ MayHold(c, x)
             /\ Fault(<<"put", c, x>>)
          \/ \E i \in 1..Len(seq[c]) :
                \/ Room(c) /\ PutAfter(c, i, x) /\ A(<<"ap", c, i, x>>)
                \/ Room(c) /\ PutBefore(c, i, x) /\ A(<<"ib", c, i, x>>)
                \/ ChildSwap(c, i, x, seq[c][i]) /\ A(<<"cs", c, i, x>>)
          \/ Take(c, x, x) /\ A(<<"take", c, x>>)
          \/ Drop(c, x, Reach(x)) /\ A(<<"drop", c, x>>)
          \/ Swap(c, x) /\ A(<<"swap", c, x>>)
    \/ \E c \in Ids :
          \/ Pop(c, IF seq[c] = <<>> THEN 0 ELSE seq[c][1]) /\ A(<<"pop", c>>)
          \/ kind[c] = "msg" /\ UNCHANGED ownvars /\ A(<<"peek", c>>)
          \/ \E i \in 1..Len(seq[c]) :
                \/ NextPop(c, i, IF i = Len(seq[c]) THEN 0 ELSE seq[c][i + 1])
                   /\ A(<<"np", c, i>>)
                \/ ChildSwap(c, i, 0, seq[c][i]) /\ A(<<"cs", c, i, 0>>)
          \/ Sour /\ \E i \in 1..Len(seq[c]) :
                LET rel == IF seq[c][i] = 0 THEN {} ELSE Reach(seq[c][i]) IN
                /\ PopLost(c, i, rel)
                /\ \/ i = 1 /\ A(<<"^", "pop", c>>)
                   \/ i > 1 /\ kind[c] = "slist" /\ A(<<"^", "np", c, i - 1>>)
          \/ /\ ClearTo(c, Left(c), ReachOf(Prefix(c, Len(seq[c]) - Left(c))))
             /\ A(<<"clear", c>>)
          \/ Free(c, Reach(c)) /\ A(<<"free", c>>)
          \/ Forging /\ Forge(c) /\ A(<<"forge", c>>)
          \/ c \in forged /\ Mine(c) /\ UNCHANGED ownvars /\ A(<<"free", c>>)
    \/ Forging /\ Mend /\ A(<<"mend">>)
MCSpec == OwnInit /\ act = <<>> /\ [][MCNext]_<<ownvars, act>>
View == ownvars
Emit == EmitEdges => PrintT(ToJson(
          [f |-> [x \in Ids |-> <<kind[x], seq[x], x \in bad, x \in forged>>], a |-> act',
           t |-> [x \in Ids |-> <<kind'[x], seq'[x], x \in bad', x \in forged'>>]]))
EmitSim == TLCGet("level") = Depth => PrintT("SIM " \o ToJson(act))
=============================================================================
