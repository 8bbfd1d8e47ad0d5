--------------------------------- MODULE Alloc ---------------------------------
(* Allocators (rcpr/allocator.h).  al maps an allocator in use to             *)
(*   [k |-> "bump", max, base, end]   a region of max bytes whose address is   *)
(*       base modulo 16; end is where the last allocation ended                *)
(*   [k |-> "heap", b]                blocks by number, with their sizes       *)
(* Where in its region a bump allocator puts a block is up to it, as long as  *)
(* the block is 16-byte aligned, inside the region and past every block given *)
(* out since the last reset.  Hdr bytes at the start hold the allocator.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
VARIABLE al
NoAl == [i \in {} |-> 0]
AUsed == DOMAIN al
Bump(max, base, hdr) == [k |-> "bump", max |-> max, base |-> base, hdr |-> hdr,
                         end |-> hdr]
Heap == [k |-> "heap", b |-> [x \in {} |-> 0]]
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Del(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]

(* the first aligned offset at or after o *)
Align(a, o) == LET m == (a.base + o) % 16 IN IF m = 0 THEN o ELSE o + 16 - m
(* it must succeed when it certainly fits, and must fail when it does not.   *)
(* (A block that would end exactly at the end of the region may be refused.) *)
Fits(a, n) == Align(a, a.end) + n < a.max
Place(a, n, o) == /\ o >= a.end /\ (a.base + o) % 16 = 0 /\ o + n <= a.max
Create(i, max, base, hdr) ==
    i \notin AUsed /\ max >= hdr /\ al' = Put(al, i, Bump(max, base, hdr))
CreateHeap(i) == i \notin AUsed /\ al' = Put(al, i, Heap)
AllocBump(i, n, o) == /\ al[i].k = "bump" /\ Place(al[i], n, o)
                      /\ al' = [al EXCEPT ![i].end = o + n]
RefuseBump(i, n) == al[i].k = "bump" /\ ~Fits(al[i], n) /\ UNCHANGED al
AllocHeap(i, b, n) == /\ al[i].k = "heap"
                      /\ al' = [al EXCEPT ![i].b = Put(@, b, n)]
FreeHeap(i, b) == /\ al[i].k = "heap" /\ b \in DOMAIN al[i].b
                  /\ al' = [al EXCEPT ![i].b = Del(@, b)]
Reset(i) == al[i].k = "bump" /\ al' = [al EXCEPT ![i].end = al[i].hdr]
Release(i) == i \in AUsed /\ al' = Del(al, i)

(* ---- the bounded design: the algorithm of the bump allocator -------------*)
CONSTANTS Regions, HdrSize, Sizes, EmitEdges
VARIABLES given, act   \* given: blocks handed out since the last reset
View == al
AInit == al = NoAl /\ given = {} /\ act = <<>>
New == \E m \in Regions : \E b \in {0, 8} :
          /\ Create(1, m, b, HdrSize) /\ given' = {} /\ act' = <<"bn", 1, m, b>>
Take == \E n \in Sizes :
          /\ 1 \in AUsed /\ act' = <<"a", 1, n>>
          /\ LET o == Align(al[1], al[1].end)
             IN IF Fits(al[1], n)
                THEN AllocBump(1, n, o) /\ given' = IF EmitEdges THEN given ELSE given \cup {<<o, n>>}
                ELSE RefuseBump(1, n) /\ UNCHANGED given
Again == 1 \in AUsed /\ Reset(1) /\ given' = {} /\ act' = <<"k", 1, "reset">>
Drop == 1 \in AUsed /\ Release(1) /\ given' = {} /\ act' = <<"r", 1>>
ANext == New \/ Take \/ Again \/ Drop
ASpec == AInit /\ [][ANext]_<<al, given, act>>
(* blocks never overlap each other, the allocator or the region's end.       *)
Disjoint == \A x, y \in given : x # y =>
    x[1] + x[2] <= y[1] \/ y[1] + y[2] <= x[1]
Inside == \A x \in given : /\ x[1] >= HdrSize /\ x[1] + x[2] <= al[1].max
                           /\ (al[1].base + x[1]) % 16 = 0
EmitE == EmitEdges => PrintT(ToJson([f |-> al, a |-> act', t |-> al']))
=============================================================================
