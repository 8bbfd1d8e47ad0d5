-------------------------------- MODULE Stream --------------------------------
(* What a synchronous psock promises about the bytes that pass through it.   *)
(*                                                                           *)
(* A stream is the sequence buf of bytes sent and not yet delivered, and     *)
(* whether the sender has closed.  How the bytes are cut into segments on    *)
(* the way, and whether a buffered reader sits in between, must not show:    *)
(* every operation below is a function of buf and closed alone.              *)
(*                                                                           *)
(* Values are raw (their big-endian bytes) or boxed (a four byte type tag in *)
(* front; strings and data also a four byte length).                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

Types == 0..10
Bool == 8
Str == 9
Data == 10
Tag(t) == IF t <= Bool THEN 16 + t ELSE IF t = Str THEN 32 ELSE 34
Width(t) == CASE t \in {0, 1} -> 8 [] t \in {2, 3} -> 4 [] t \in {4, 5} -> 2
              [] t \in {6, 7, 8} -> 1 [] OTHER -> 0
BE4(n) == <<(n \div 16777216) % 256, (n \div 65536) % 256,
            (n \div 256) % 256, n % 256>>
Take(q, n) == SubSeq(q, 1, n)
Drop(q, n) == SubSeq(q, n + 1, Len(q))
IsPrefix(p, q) == Len(p) <= Len(q) /\ Take(q, Len(p)) = p
Min(a, b) == IF a < b THEN a ELSE b

(* the bytes of value v of type t. *)
Enc(b, t, v) == (IF b = 1 THEN BE4(Tag(t)) ELSE <<>>)
                \o (IF b = 1 /\ t >= Str THEN BE4(Len(v)) ELSE <<>>) \o v

(* the outcome of reading a value: "ok" with the value and what remains,     *)
(* "type" or "size" for a packet that is not what was asked for, "more" if   *)
(* not all of it is there.  n is the size of raw data.                       *)
More4(q) == [st |-> "more", v |-> <<>>, rest |-> q]
Body(t, n, q) ==
    IF Len(q) < n THEN More4(q)
    ELSE LET v == Take(q, n)
         IN [st |-> "ok", rest |-> Drop(q, n),
             v |-> IF t = Bool THEN (IF v[1] = 0 THEN <<0>> ELSE <<1>>) ELSE v]
(* lengths are compared byte by byte: they need not fit TLC's integers.      *)
TooLong(h, q) == h[1] > 0 \/ h[2] * 65536 + h[3] * 256 + h[4] > Len(q)
Read(b, t, n, q) ==
    IF b = 0 THEN Body(t, IF t = Data THEN n ELSE Width(t), q)
    ELSE IF Len(q) < 4 THEN More4(q)
    ELSE IF Take(q, 4) # BE4(Tag(t))
         THEN [st |-> "type", v |-> <<>>, rest |-> Drop(q, 4)]
    ELSE IF t <= Bool THEN Body(t, Width(t), Drop(q, 4))
    ELSE IF Len(q) < 8 THEN More4(q)
    ELSE LET h == SubSeq(q, 5, 8)
             p == Drop(q, 8)
         IN IF t = Str /\ h = <<255, 255, 255, 255>>
            THEN [st |-> "size", v |-> <<>>, rest |-> p]
            ELSE IF TooLong(h, p) THEN More4(q)
            ELSE Body(t, h[2] * 65536 + h[3] * 256 + h[4], p)

(* the position of the first newline among the first n bytes, 0 if there is  *)
(* none.                                                                     *)
NewlineIn(n, q) == LET S == {i \in 1..Min(n, Len(q)) : q[i] = 10}
                   IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
Newline(q) == NewlineIn(Len(q), q)
(* reading a line into a buffer of n bytes.  Outcomes: a set, since a line   *)
(* that exactly fills the buffer may be delivered whole or as truncated with *)
(* its newline still to come, depending on how the bytes arrive.             *)
Line(n, q, closed) ==
    LET nl == NewlineIn(n, q)
        full == [st |-> "ok", v |-> Take(q, nl - 1) \o <<0>>, size |-> nl,
                 rest |-> Drop(q, nl)]
        cut == [st |-> "trunc", v |-> Take(q, n - 1) \o <<0>>, size |-> n - 1,
                rest |-> Drop(q, n - 1)]
        all == [st |-> "ok", v |-> q \o <<0>>, size |-> Len(q) + 1,
                rest |-> <<>>]
        none == [st |-> "end", v |-> <<>>, size |-> n, rest |-> q]
        wait == [st |-> "more", v |-> <<>>, size |-> n, rest |-> q]
    IN IF n <= 1 THEN {[st |-> "small", v |-> <<>>, size |-> n, rest |-> q]}
       ELSE IF nl > 0 /\ nl <= n - 1 THEN {full}
       ELSE IF nl = n THEN {full, cut}
       ELSE IF Len(q) >= n - 1 THEN {cut}
       ELSE IF ~closed THEN {wait}
       ELSE IF q = <<>> THEN {none} ELSE {all}

(* ------------------------------------------------------------------------- *)
(* The bounded state machine scripts are generated from: a sender, a         *)
(* buffered reader.  fed and pos make the history explicit so that the       *)
(* design can be checked: what is delivered is what was sent, in order, once.*)
Feeds == {<<97>>, <<10>>, <<98, 98>>, <<10, 97>>}
CONSTANTS MaxFed, LineSizes, Caps, EmitEdges
VARIABLES fed, pos, pulled, closed, dead, act, got
vars == <<fed, pos, pulled, closed, dead, act, got>>
buf == Drop(fed, pos)

SInit == fed = <<>> /\ pos = 0 /\ pulled = 0 /\ closed = FALSE /\ dead = FALSE
         /\ act = <<>> /\ got = <<>>

Feed(x) == /\ ~closed /\ Len(fed) + Len(x) <= MaxFed
           /\ fed' = fed \o x /\ act' = <<"f", x>>
           /\ UNCHANGED <<pos, pulled, closed, dead, got>>
Close == ~closed /\ closed' = TRUE /\ act' = <<"c">>
         /\ UNCHANGED <<fed, pos, pulled, dead, got>>

(* the reader's buffer refills by at most cap bytes (0: no cap) until the    *)
(* operation has the k bytes it needs.                                       *)
RECURSIVE Refill(_, _, _, _)
Refill(p, k, cap, avail) ==
    IF p >= k \/ p >= avail THEN Min(p, avail)
    ELSE Refill(Min(avail, p + (IF cap = 0 THEN avail ELSE cap)), k, cap, avail)
Consume(rest, k, cap) ==
    /\ pos' = Len(fed) - Len(rest)
    /\ LET p == Refill(pulled, k, cap, Len(buf))
           used == Len(buf) - Len(rest)
       IN pulled' = IF p > used THEN p - used ELSE 0
GetLine(n, cap) ==
    \E o \in Line(n, buf, closed) :
        /\ act' = <<"rl", n, cap>>
        /\ got' = got \o (IF o.st = "ok" \/ o.st = "trunc"
                          THEN Take(buf, Len(buf) - Len(o.rest)) ELSE <<>>)
        /\ dead' = (o.st \in {"more", "end"})
        /\ Consume(o.rest, Min(n - 1, Newline(buf)), cap)
        /\ UNCHANGED <<fed, closed>>
GetValue(b, t, n, cap) ==
    LET o == Read(b, t, n, buf)
    IN /\ act' = <<"r", b, t, n, cap>>
       /\ dead' = (o.st # "ok")
       /\ got' = got \o (IF o.st = "ok" THEN Take(buf, Len(buf) - Len(o.rest))
                         ELSE <<>>)
       /\ IF o.st = "ok" THEN Consume(o.rest, Len(buf) - Len(o.rest), cap)
          ELSE UNCHANGED <<pos, pulled>>
       /\ UNCHANGED <<fed, closed>>
GetSome(n, cap) ==
    /\ buf # <<>>
    /\ act' = <<"rr", n, cap>>
    /\ LET p == IF pulled > 0 THEN pulled
                ELSE Min(Len(buf), IF cap = 0 THEN Len(buf) ELSE cap)
           k == Min(n, p)
       IN pos' = pos + k /\ pulled' = p - k /\ got' = got \o Take(buf, k)
    /\ UNCHANGED <<fed, closed, dead>>

SNext == ~dead /\ (\/ \E x \in Feeds : Feed(x)
                   \/ Close
                   \/ \E c \in Caps : \/ \E n \in LineSizes : GetLine(n, c)
                                      \/ \E n \in 1..2 : GetSome(n, c)
                                      \/ GetValue(0, 7, 0, c)
                                      \/ GetValue(0, Data, 2, c))
SSpec == SInit /\ [][SNext]_vars
Conservation == fed = got \o buf
PulledOk == pulled <= Len(buf)
EdgeView == <<fed, pos, pulled, closed, dead>>
Emit == EmitEdges =>
    PrintT(ToJson([f |-> EdgeView, a |-> act',
                   t |-> <<fed', pos', pulled', closed', dead'>>]))


=============================================================================
