---------------------------------- MODULE Text ----------------------------------
(* Strings (rcpr/string.h) and UUIDs (rcpr/uuid.h) as functions on sequences  *)
(* of bytes, with the laws they obey checked over every short string.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Space == {9, 10, 11, 12, 13, 32}
RECURSIVE LTrim(_), RTrim(_), SplitBy(_, _)
LTrim(x) == IF x # <<>> /\ Head(x) \in Space THEN LTrim(Tail(x)) ELSE x
Front(x) == SubSeq(x, 1, Len(x) - 1)
RTrim(x) == IF x # <<>> /\ x[Len(x)] \in Space THEN RTrim(Front(x)) ELSE x
Trim(x) == LTrim(RTrim(x))
Chomp(x) == IF x = <<>> THEN x ELSE Front(x)

(* the maximal runs of bytes outside T, in order. *)
At(x, T, i) == i \in 1..Len(x) /\ x[i] \notin T
Runs(x, T) == {r \in (1..Len(x)) \X (1..Len(x)) :
    /\ r[1] <= r[2] /\ \A i \in r[1]..r[2] : At(x, T, i)
    /\ ~At(x, T, r[1] - 1) /\ ~At(x, T, r[2] + 1)}
(* the same, by structure: the head's run, then the rest's. *)
RECURSIVE RunEnd(_, _, _)
RunEnd(x, T, i) == IF At(x, T, i) THEN RunEnd(x, T, i + 1) ELSE i - 1
SplitBy(x, T) ==
    IF x = <<>> THEN <<>>
    ELSE IF Head(x) \in T THEN SplitBy(Tail(x), T)
    ELSE LET e == RunEnd(x, T, 1)
         IN <<SubSeq(x, 1, e)>> \o SplitBy(SubSeq(x, e + 1, Len(x)), T)
Words(x) == SplitBy(x, Space)

Where(x, d) == {i \in 1..Len(x) : x[i] = d}
First(S) == CHOOSE i \in S : \A j \in S : i <= j
Has1(x, d) == Where(x, d) # {}
Lhs(x, d) == SubSeq(x, 1, First(Where(x, d)) - 1)
Rhs(x, d) == SubSeq(x, First(Where(x, d)) + 1, Len(x))
Starts(x, y) == Len(y) <= Len(x) /\ SubSeq(x, 1, Len(y)) = y
Ends(x, c) == x # <<>> /\ x[Len(x)] = c
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Cat(Tail(q))

(* ---- UUIDs ---------------------------------------------------------------*)
Dashes == {9, 14, 19, 24}              \* positions in the 36 characters
Nibble(c) == CASE c \in 48..57 -> c - 48
               [] c \in 65..70 -> c - 55
               [] c \in 97..102 -> c - 87
               [] OTHER -> -1
Digit(n) == IF n < 10 THEN 48 + n ELSE 87 + n
DashesBefore(p) == Cardinality({d \in Dashes : d < p})
(* byte b (1..16) is written at positions Pos(b), Pos(b) + 1 *)
Pos(b) == LET p == 2 * b - 1
          IN p + (IF b > 4 THEN 1 ELSE 0) + (IF b > 6 THEN 1 ELSE 0)
               + (IF b > 8 THEN 1 ELSE 0) + (IF b > 10 THEN 1 ELSE 0)
ByteAt(p) == CHOOSE b \in 1..16 : p \in {Pos(b), Pos(b) + 1}
Show(u) == [p \in 1..36 |->
    IF p \in Dashes THEN 45
    ELSE LET b == ByteAt(p)
         IN Digit(IF p = Pos(b) THEN u[b] \div 16 ELSE u[b] % 16)]
IsUuid(x) == /\ Len(x) = 36
             /\ \A p \in 1..36 : IF p \in Dashes THEN x[p] = 45
                                 ELSE Nibble(x[p]) >= 0
Parse(x) == [b \in 1..16 |-> 16 * Nibble(x[Pos(b)]) + Nibble(x[Pos(b) + 1])]

(* ---- laws ----------------------------------------------------------------*)
CONSTANTS Alpha, MaxLen, UBytes
VARIABLE x, u
LInit == x = <<>> /\ u = [b \in 1..16 |-> 0]
LNext == \/ /\ Len(x) < MaxLen /\ (\A b \in 1..16 : u[b] = 0) /\ \E a \in Alpha : x' = Append(x, a)
            /\ UNCHANGED u
         \/ /\ x = <<>> /\ UNCHANGED x
            /\ \E b \in 1..16 : \E v \in UBytes :
                  u[b] = 0 /\ (\A c \in b..16 : u[c] = 0)
                  /\ Cardinality({c \in 1..16 : u[c] # 0}) < 2
                  /\ u' = [u EXCEPT ![b] = v]
LSpec == LInit /\ [][LNext]_<<x, u>>
TrimLaws == /\ Trim(x) = RTrim(LTrim(x)) /\ Trim(Trim(x)) = Trim(x)
            /\ LTrim(x) = SubSeq(x, Len(x) - Len(LTrim(x)) + 1, Len(x))
            /\ RTrim(x) = SubSeq(x, 1, Len(RTrim(x)))
            /\ (Trim(x) # <<>> => Trim(x)[1] \notin Space
                                  /\ Trim(x)[Len(Trim(x))] \notin Space)
WordLaws == /\ Cardinality(Runs(x, Space)) = Len(Words(x))
            /\ \A r \in Runs(x, Space) : \E k \in 1..Len(Words(x)) :
                  Words(x)[k] = SubSeq(x, r[1], r[2])
            /\ Cat(Words(x)) = SelectSeq(x, LAMBDA c : c \notin Space)
            /\ \A k \in 1..Len(Words(x)) : Words(x)[k] # <<>>
            /\ Words(Trim(x)) = Words(x)
SplitLaws == \A d \in Alpha : Has1(x, d) =>
                /\ Lhs(x, d) \o <<d>> \o Rhs(x, d) = x /\ ~Has1(Lhs(x, d), d)
PrefixLaws == /\ Starts(x, <<>>) /\ Starts(x, x) /\ Starts(x, Chomp(x))
              /\ \A c \in Alpha : Ends(Append(x, c), c)
UuidLaws == x # <<>> \/
            /\ IsUuid(Show(u)) /\ Parse(Show(u)) = u
            /\ \A p \in 1..36 : ~IsUuid([Show(u) EXCEPT ![p] = 103])
            /\ ~IsUuid(Append(Show(u), 48)) /\ ~IsUuid(Chomp(Show(u)))
=============================================================================
