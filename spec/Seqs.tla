--------------------------------- MODULE Seqs ---------------------------------
(* rcpr/slist.h, rcpr/list.h, rcpr/queue.h: sequences of owned resources.     *)
(*                                                                            *)
(* seq[q] is the sequence of children of q's nodes, head first; 0 stands for  *)
(* a node without a resource.  One action per public operation; operations    *)
(* that address a node take its 1-based position.  Released sets and results  *)
(* are parameters bound by the trace specification.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Qs
VARIABLES alive, seq
sqvars == <<alive, seq>>

SqInit == alive = {} /\ seq = [q \in Qs |-> <<>>]

Ins(x, i, v) == SubSeq(x, 1, i) \o <<v>> \o SubSeq(x, i + 1, Len(x))
Del(x, i) == SubSeq(x, 1, i - 1) \o SubSeq(x, i + 1, Len(x))
Kids(x) == {x[i] : i \in 1..Len(x)} \ {0}
Set(q, x) == seq' = [seq EXCEPT ![q] = x] /\ UNCHANGED alive
Is(q) == q \in alive

Create(q) == ~Is(q) /\ alive' = alive \cup {q} /\ UNCHANGED seq
Free(q, rel) == /\ Is(q) /\ rel = Kids(seq[q])
                /\ alive' = alive \ {q} /\ seq' = [seq EXCEPT ![q] = <<>>]
InsertHead(q, v) == Is(q) /\ Set(q, <<v>> \o seq[q])
AppendTail(q, v) == Is(q) /\ Set(q, Append(seq[q], v))
AppendAfter(q, i, v) == Is(q) /\ i \in 1..Len(seq[q]) /\ Set(q, Ins(seq[q], i, v))
InsertBefore(q, i, v) ==
    Is(q) /\ i \in 1..Len(seq[q]) /\ Set(q, Ins(seq[q], i - 1, v))
(* v = 0: take the child out; r is what the caller gets back. *)
ChildSwap(q, i, v, r) ==
    Is(q) /\ i \in 1..Len(seq[q]) /\ r = seq[q][i]
    /\ Set(q, [seq[q] EXCEPT ![i] = v])
Pop(q, r) ==
    Is(q) /\ IF seq[q] = <<>> THEN r = 0 /\ UNCHANGED sqvars
             ELSE r = Head(seq[q]) /\ Set(q, Tail(seq[q]))
NextPop(q, i, r) ==
    Is(q) /\ i \in 1..Len(seq[q])
    /\ IF i = Len(seq[q]) THEN r = 0 /\ UNCHANGED sqvars
       ELSE r = seq[q][i + 1] /\ Set(q, Del(seq[q], i + 1))
(* many at once: v, v + 1, ... at the tail; as many off the head. *)
Fill(q, v, n) == Is(q) /\ Set(q, seq[q] \o [j \in 1..n |-> v + (j - 1)])
Drain(q, n, r) == LET m == IF n < Len(seq[q]) THEN n ELSE Len(seq[q]) IN
    /\ Is(q) /\ r = SubSeq(seq[q], 1, m) \o [j \in 1..(n - m) |-> 0]
    /\ Set(q, SubSeq(seq[q], m + 1, Len(seq[q])))
Clear(q, rel) == Is(q) /\ rel = Kids(seq[q]) /\ Set(q, <<>>)
Swap(q, u) == {q, u} \subseteq alive
              /\ seq' = [seq EXCEPT ![q] = seq[u], ![u] = seq[q]]
              /\ UNCHANGED alive

(* ---- bounded design check and script generation ------------------------ *)
CONSTANTS Kind, Ids, MaxLen, EmitEdges
VARIABLE act
Owned == UNION {Kids(seq[q]) : q \in Qs}
Fresh == IF Ids \ Owned = {} THEN {}
         ELSE {CHOOSE i \in Ids \ Owned : \A j \in Ids \ Owned : i <= j}
A(x) == act' = x
Fault(x) == UNCHANGED sqvars /\ act' = <<"!1">> \o x
Room(q) == Len(seq[q]) < MaxLen
MCNext == \E q \in Qs :
    \/ Create(q) /\ A(<<"new", q>>)
    \/ ~Is(q) /\ Fault(<<"new", q>>)
    \/ Free(q, Kids(seq[q])) /\ A(<<"free", q>>)
    \/ Room(q) /\ \E v \in Fresh :
          \/ InsertHead(q, v) /\ A(<<"ih", q, v>>)
          \/ AppendTail(q, v) /\ A(<<"at", q, v>>)
          \/ Is(q) /\ Fault(<<"ih", q, v>>)
          \/ Is(q) /\ Fault(<<"at", q, v>>)
    \/ Kind # "queue" /\ \E i \in 1..Len(seq[q]) :
          \/ Room(q) /\ \E v \in Fresh :
                \/ AppendAfter(q, i, v) /\ A(<<"ap", q, i, v>>)
                \/ Fault(<<"ap", q, i, v>>)
                \/ Kind = "list" /\ InsertBefore(q, i, v)
                   /\ A(<<"ib", q, i, v>>)
                \/ Kind = "list" /\ Fault(<<"ib", q, i, v>>)
          \/ \E v \in {0} \cup Fresh :
                ChildSwap(q, i, v, seq[q][i]) /\ A(<<"cs", q, i, v>>)
          \/ Kind = "slist"
             /\ NextPop(q, i, IF i = Len(seq[q]) THEN 0 ELSE seq[q][i + 1])
             /\ A(<<"np", q, i>>)
    \/ Pop(q, IF seq[q] = <<>> THEN 0 ELSE Head(seq[q])) /\ A(<<"pop", q>>)
    \/ Kind # "queue" /\ Clear(q, Kids(seq[q])) /\ A(<<"clear", q>>)
    \/ Kind # "queue" /\ \E u \in Qs : Swap(q, u) /\ A(<<"swap", q, u>>)
MCSpec == SqInit /\ act = <<"init">> /\ [][MCNext]_<<sqvars, act>>
View == sqvars
Emit == EmitEdges => PrintT(ToJson([f |-> <<alive, [q \in Qs |-> seq[q]]>>,
                                    a |-> act', t |-> <<alive', seq'>>]))
SingleOwner == \A q, u \in Qs : \A i \in 1..Len(seq[q]), j \in 1..Len(seq[u]) :
    seq[q][i] = seq[u][j] /\ seq[q][i] # 0 => q = u /\ i = j
OwnersAlive == \A q \in Qs : ~Is(q) => seq[q] = <<>>
=============================================================================
