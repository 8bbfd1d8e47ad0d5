-------------------------------- MODULE Rbtree --------------------------------
(* rcpr/rbtree.h: an ordered collection of owned resources.                  *)
(*                                                                           *)
(* One action per public operation.  A tree is the set of entries            *)
(* [id, k] it owns; id identifies the resource, k its key.  The operations   *)
(* say who owns each resource afterwards, so "released" and "given" are      *)
(* parameters that the trace specification binds to what the code did.       *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Trees

VARIABLES alive,  \* trees that exist
          ent,    \* ent[t]: entries of tree t
          ord     \* ord[t]: the order its entries are kept in: the user's
                  \* context c and, for it, ascending (1) or descending (-1)

rbvars == <<alive, ent, ord>>

NoOrd == [c |-> -1, d |-> 1]
RbInit == alive = {} /\ ent = [t \in Trees |-> {}] /\ ord = [t \in Trees |-> NoOrd]

With(t, k) == {e \in ent[t] : e.k = k}

Create(t, o) == /\ t \notin alive
                /\ alive' = alive \cup {t}
                /\ ord' = [ord EXCEPT ![t] = o]
                /\ UNCHANGED ent
(* released: the ids the code let go of. *)
Free(t, released) ==
    /\ t \in alive
    /\ released = {e.id : e \in ent[t]}
    /\ alive' = alive \ {t}
    /\ ent' = [ent EXCEPT ![t] = {}]
    /\ UNCHANGED ord
Insert(t, id, k) ==
    /\ t \in alive
    /\ ent' = [ent EXCEPT ![t] = @ \cup {[id |-> id, k |-> k]}]
    /\ UNCHANGED <<alive, ord>>
Found(t, k, id) ==
    /\ t \in alive
    /\ [id |-> id, k |-> k] \in ent[t]
    /\ UNCHANGED rbvars
NotFound(t, k) ==
    /\ t \in alive
    /\ With(t, k) = {}
    /\ UNCHANGED rbvars
(* remove one entry with key k; give: the caller takes ownership. *)
Delete(t, k, id, give, released) ==
    /\ t \in alive
    /\ [id |-> id, k |-> k] \in ent[t]
    /\ released = IF give THEN {} ELSE {id}
    /\ ent' = [ent EXCEPT ![t] = @ \ {[id |-> id, k |-> k]}]
    /\ UNCHANGED <<alive, ord>>
Clear(t, released) ==
    /\ t \in alive
    /\ released = {e.id : e \in ent[t]}
    /\ ent' = [ent EXCEPT ![t] = {}]
    /\ UNCHANGED <<alive, ord>>
Swap(t, u) ==
    /\ {t, u} \subseteq alive
    /\ ent' = [ent EXCEPT ![t] = ent[u], ![u] = ent[t]]
    /\ ord' = [ord EXCEPT ![t] = ord[u], ![u] = ord[t]]
    /\ UNCHANGED alive

(* many at once: ids id, id + 1, ... under the keys 0, step, 2 * step, ...    *)
(* modulo mod; and those under such keys taken again, as the ids r.          *)
KeyAt(j, step, mod) == ((j - 1) * step) % mod
Fill(t, id, n, step, mod) ==
    /\ t \in alive
    /\ ent' = [ent EXCEPT ![t] = @ \cup
          {[id |-> id + (j - 1), k |-> KeyAt(j, step, mod)] : j \in 1..n}]
    /\ UNCHANGED <<alive, ord>>
Drain(t, r, step, mod) ==
    LET out == {[id |-> r[j], k |-> KeyAt(j, step, mod)] : j \in 1..Len(r)} IN
    /\ t \in alive
    /\ out \subseteq ent[t]
    /\ ent' = [ent EXCEPT ![t] = @ \ out]
    /\ UNCHANGED <<alive, ord>>

(* an in-order walk f (the keys met: ks), a reverse walk b of t, and its     *)
(* count.                                                                    *)
WalkOk(t, f, ks, b, n) ==
    /\ n = Cardinality(ent[t])
    /\ Len(f) = n
    /\ {[id |-> f[i], k |-> ks[i]] : i \in 1..Len(f)} = ent[t]
    /\ \A i \in 1..(n - 1) : ord[t].d * ks[i] <= ord[t].d * ks[i + 1]
    /\ Len(b) = n
    /\ \A i \in 1..n : b[i] = f[n + 1 - i]

(* ---- bounded design check --------------------------------------------- *)
CONSTANTS Keys, Ids
RbNext ==
    \E t \in Trees :
        \/ \E d \in {1, -1} : Create(t, [c |-> t, d |-> d])
        \/ Free(t, {e.id : e \in ent[t]})
        \/ \E k \in Keys, i \in Ids :
              /\ \A u \in Trees : \A e \in ent[u] : e.id # i
              /\ Insert(t, i, k)
        \/ \E e \in ent[t], give \in BOOLEAN :
              Delete(t, e.k, e.id, give, IF give THEN {} ELSE {e.id})
        \/ Clear(t, {e.id : e \in ent[t]})
        \/ \E u \in Trees : Swap(t, u)
RbSpec == RbInit /\ [][RbNext]_rbvars

(* a resource is owned by at most one tree, and only by a live one. *)
SingleOwner ==
    \A t, u \in Trees : \A e \in ent[t], f \in ent[u] :
        e.id = f.id => (t = u /\ e = f)
OwnersAlive == \A t \in Trees : t \notin alive => ent[t] = {}
=============================================================================
