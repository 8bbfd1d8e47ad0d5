----------------------------- MODULE StreamTrace -----------------------------
(* Events of harness/psock.c judged against Stream.                          *)
(*                                                                           *)
(* kind: 0 descriptors, 1 buffered reader over a descriptor, 2 output        *)
(* buffer, 3 buffered reader over an input buffer, 4/6 user methods (6: with *)
(* the optional ones), 5 buffered reader over a buffered reader, 7/8         *)
(* buffered reader over user methods (8: with the optional ones).            *)
EXTENDS TraceBase
VARIABLES kind, buf, closed, dead, out
S == INSTANCE Stream WITH MaxFed <- 0, LineSizes <- {},
        Caps <- {}, EmitEdges <- FALSE, fed <- <<>>, pos <- 0, pulled <- 0,
        act <- <<>>, got <- <<>>, closed <- FALSE, dead <- FALSE
vars == <<kind, buf, closed, dead, out>>

NoPsock == -1
Failed == -2
HasBr == kind \in {1, 3, 5, 7, 8}
IsUser == kind \in {4, 6, 7, 8}
AllMethods == kind \in {6, 8}
Fg == IF Has("fg") THEN E.fg ELSE 0
BadTable == "ERROR_GENERAL_BAD_VTABLE"
Live == kind >= 0 /\ ~dead
EndCodes == {"ERROR_PSOCK_READ_INVALID_SIZE", "ERROR_PSOCK_READ_EOF",
             "ERROR_PSOCK_READ_GENERAL"}
TypeErr == "ERROR_PSOCK_READ_BOXED_INVALID_TYPE"
SizeErr == "ERROR_PSOCK_READ_BOXED_INVALID_SIZE"
CutErr == "ERROR_PSOCK_WRITE_INVALID_SIZE"

TOpen == /\ IsEvent("open") /\ kind = NoPsock
         /\ \/ /\ E.st = "ok" /\ ~Oom
               /\ kind' = E.kind
               /\ buf' = IF E.kind = 3 THEN E.v ELSE <<>>
               /\ closed' = (E.kind = 3)
            \/ E.st = "oom" /\ Oom /\ kind' = Failed /\ UNCHANGED <<buf, closed>>
         /\ UNCHANGED <<dead, out>>

(* writing: all of the value's bytes, nothing else, go out; or the failure   *)
(* is reported.                                                              *)
Sent == IF kind = 2 THEN S!Drop(E.out, Len(out)) ELSE E.wire
Placed == kind = 2 => S!IsPrefix(out, E.out)
Full == E.st = "ok" /\ Sent = S!Enc(E.b, E.t, E.v)
Part == /\ S!IsPrefix(Sent, S!Enc(E.b, E.t, E.v))
        /\ Sent # S!Enc(E.b, E.t, E.v)
        /\ E.st = IF Oom THEN E.st ELSE CutErr
        /\ E.st \in {"oom", CutErr}
Broken == E.st = E.we /\ S!IsPrefix(Sent, S!Enc(E.b, E.t, E.v))
Write == Placed /\ IF E.we # "" THEN Broken \/ (Oom /\ E.st = "oom" /\ Sent = <<>>)
                   ELSE IF E.cut = 0 /\ ~Oom THEN Full ELSE Full \/ Part
TW == /\ IsEvent("w") /\ Live /\ (kind \in {0, 1, 5} => ~closed)
      /\ Write
      /\ buf' = IF kind = 2 THEN buf ELSE buf \o Sent
      /\ out' = IF kind = 2 THEN E.out ELSE out
      /\ UNCHANGED <<kind, closed, dead>>
(* the other direction of a socket, through the reader's end: the incoming   *)
(* stream is not touched.                                                    *)
TX == /\ IsEvent("x") /\ Live /\ Fg = 0 /\ kind \in {0, 1, 5}
      /\ Write /\ (Has("peer") => E.peer = 1)
      /\ UNCHANGED vars
TWbig == IsEvent("wbig") /\ Live /\ E.st = CutErr /\ UNCHANGED vars
TFeed == IsEvent("f") /\ Live /\ ~closed /\ buf' = buf \o E.v
         /\ UNCHANGED <<kind, closed, dead, out>>
TClose == IsEvent("c") /\ kind >= 0 /\ ~closed /\ E.st = "ok" /\ E.shut = 1
          /\ closed' = TRUE /\ UNCHANGED <<kind, buf, dead, out>>
TFlip == /\ IsEvent("flip") /\ Live /\ kind = 2
         /\ \/ E.st = "ok" /\ ~Oom /\ E.v = out /\ kind' = 3 /\ buf' = out
               /\ closed' = TRUE
            \/ E.st = "oom" /\ Oom /\ E.same = 1 /\ UNCHANGED <<kind, buf, closed>>
         /\ UNCHANGED <<dead, out>>

(* reading.  A transport that says it would block only makes a buffered      *)
(* reader wait, except in a raw read, which does not wait.                   *)
Again == "ERROR_PSOCK_READ_WOULD_BLOCK"
Fault == E.re # "" /\ ~(HasBr /\ E.re = Again)
Dies == dead' = TRUE /\ UNCHANGED <<kind, buf, closed, out>>
TRbad == /\ IsEvent("r") /\ Live /\ kind # 2 /\ Fault
         /\ E.hang = 0 /\ E.same = 1 /\ Dies
         /\ \/ E.st = E.re
            \/ kind = 0 /\ E.st = "ERROR_PSOCK_READ_INVALID_SIZE"
TR == /\ IsEvent("r") /\ Live /\ kind # 2 /\ ~Fault
      /\ LET o == S!Read(E.b, E.t, E.n, buf)
         IN CASE o.st = "ok" ->
                   /\ E.hang = 0
                   /\ \/ /\ E.st = "ok" /\ ~Oom /\ E.v = o.v /\ buf' = o.rest
                         /\ UNCHANGED <<kind, closed, dead, out>>
                      \/ E.st = "oom" /\ Oom /\ E.same = 1 /\ Dies
              [] o.st = "type" -> E.st = TypeErr /\ E.hang = 0 /\ E.same = 1
                                  /\ Dies
              [] o.st = "size" -> E.st = SizeErr /\ E.hang = 0 /\ E.same = 1
                                  /\ Dies
              [] OTHER ->
                   /\ E.st # "ok" /\ E.same = 1 /\ Dies
                   /\ \/ E.st = "oom" /\ Oom
                      \/ ~closed /\ E.hang = 1
                      \/ closed /\ E.hang = 0 /\ E.st \in EndCodes
(* as many bytes as there are, up to n, at least one.                        *)
TRrbad == /\ IsEvent("rr") /\ Live /\ kind # 2 /\ E.re # ""
          /\ E.hang = 0 /\ E.st = E.re
          /\ IF E.re = Again THEN UNCHANGED vars ELSE Dies
TRr == /\ IsEvent("rr") /\ Live /\ kind # 2 /\ E.re = ""
       /\ IF E.n = 0 THEN E.st = "ok" /\ E.v = <<>> /\ E.hang = 0
                          /\ UNCHANGED vars
          ELSE IF buf = <<>>
          THEN /\ \/ ~closed /\ E.hang = 1 /\ E.st # "ok"
                  \/ closed /\ E.hang = 0 /\ E.st = "ok" /\ E.v = <<>>
                  \/ closed /\ E.hang = 0 /\ E.st \in EndCodes
               /\ (E.st # "ok" => E.same = 1)
               /\ Dies
          ELSE /\ E.st = "ok" /\ E.hang = 0
               /\ Len(E.v) > 0 /\ Len(E.v) <= E.n /\ S!IsPrefix(E.v, buf)
               /\ buf' = S!Drop(buf, Len(E.v))
               /\ UNCHANGED <<kind, closed, dead, out>>
LineErr(x) == CASE x = "ok" -> {"ok"}
                [] x = "trunc" -> {"ERROR_PSOCK_BR_READ_LINE_TRUNCATED"}
                [] x = "small" -> {"ERROR_PSOCK_BR_READ_LINE_BUFFER_SIZE_TOO_SMALL"}
                [] x = "end" -> EndCodes
                [] OTHER -> {}
(* a line ends where the transport failed, if it has any bytes by then.      *)
TRlbad == /\ IsEvent("rl") /\ Live /\ HasBr /\ (Fault \/ Fg # 0)
          /\ E.hang = 0 /\ Dies
          /\ \E p \in 0..Len(buf) :
                /\ (Has("left") => p = Len(buf) - E.left)
                /\ \E o \in S!Line(E.n, S!Take(buf, p), TRUE) :
                      IF o.st = "end" THEN \/ E.st = "ERROR_PSOCK_READ_GENERAL"
                                           \/ Fg # 0 /\ E.st = BadTable
                      ELSE /\ o.st = "ok" /\ o.rest = <<>> /\ E.st = "ok"
                           /\ E.v = o.v /\ E.size = o.size
TRl == /\ IsEvent("rl") /\ Live /\ HasBr /\ ~Fault
       /\ \E o \in S!Line(E.n, buf, closed) :
             IF o.st = "more" THEN E.hang = 1 /\ Dies
             ELSE /\ E.hang = 0
                  /\ E.st \in LineErr(o.st)
                  (* a line that fits exactly is cut only if its newline has *)
                  (* not reached the reader.                                 *)
                  /\ (Has("left") /\ S!NewlineIn(E.n, buf) = E.n /\ E.n > 1
                      => (o.st = "ok") = (Len(buf) - E.left >= E.n))
                  /\ (o.st # "end" => E.v = o.v /\ E.size = o.size)
                  /\ IF o.st = "end" THEN Dies
                     ELSE buf' = o.rest /\ UNCHANGED <<kind, closed, dead, out>>

(* optional methods: called once if given, reported as undefined if not.     *)
TUm == /\ IsEvent("um") /\ Live /\ IsUser
       /\ IF AllMethods /\ E.m # "opt"
          THEN /\ E.st = "ok" /\ E.calls = 1
               /\ E.d = (IF E.m = "accept" THEN 77 ELSE 4)
               /\ E.n = (IF E.m = "recvmsg" THEN 9 ELSE 4)
          ELSE E.st = "ERROR_PSOCK_METHOD_UNDEFINED" /\ E.calls = 0
               /\ E.d = 4 /\ E.n = 4
       /\ UNCHANGED vars

(* what a psock of this type cannot do is refused, and nothing happens.      *)
TNo == /\ IsEvent("no") /\ Live
       /\ E.st = "ERROR_PSOCK_UNSUPPORTED_TYPE" /\ E.same = 1 /\ E.n = 0
       /\ UNCHANGED vars

(* a psock with a forged method table refuses whatever needs the table, before *)
(* it calls anything of it (fc = 0); nothing is lost.  One that works over     *)
(* such a psock does what it can without it.                                   *)
TForged == /\ IsEvent(E.op) /\ Live /\ Fg = 1
           /\ CASE E.op \in {"w", "x"} ->
                      E.st = BadTable /\ (IF kind = 2 THEN E.out = out
                                          ELSE E.wire = <<>>)
                [] E.op = "r" -> E.st = BadTable /\ E.same = 1 /\ E.hang = 0
                [] E.op = "rr" -> E.st = BadTable /\ E.same = 1 /\ E.hang = 0
                [] E.op = "um" -> E.st = BadTable /\ E.calls = 0
                                  /\ E.d = 4 /\ E.n = 4
                [] E.op = "no" -> E.st \in {BadTable, "ERROR_PSOCK_UNSUPPORTED_TYPE"}
                                  /\ E.same = 1 /\ E.n = 0
                [] OTHER -> FALSE
           /\ UNCHANGED vars
TBelow == /\ IsEvent(E.op) /\ Live /\ Fg = 2
          /\ CASE E.op = "x" -> E.st = BadTable /\ E.wire = <<>> /\ UNCHANGED vars
               [] E.op = "r" -> E.st = BadTable /\ E.same = 1 /\ E.hang = 0 /\ Dies
               [] E.op = "rr" -> E.st = BadTable /\ E.same = 1 /\ E.hang = 0
                                 /\ UNCHANGED vars
               [] E.op = "um" ->
                    /\ E.st \in {BadTable, "ERROR_PSOCK_METHOD_UNDEFINED"}
                    /\ E.calls = 0 /\ E.d = 4 /\ E.n = 4 /\ UNCHANGED vars
               [] OTHER -> FALSE
TFrel == IsEvent("frel") /\ E.st = BadTable /\ E.n = 0 /\ UNCHANGED vars

(* releasing: descriptors owned by psocks are closed, a buffered reader      *)
(* leaves what it wraps alone, the user's release method runs once.          *)
TEnd == /\ IsEvent("end") /\ E.rc = 0 /\ E.fds = 0 /\ E.early = 0
        /\ E.live = 0 /\ E.foreign = 0 /\ E.urel = (IF AllMethods THEN 1 ELSE 0)
        /\ UNCHANGED vars

Init == TBInit /\ kind = NoPsock /\ buf = <<>> /\ closed = FALSE
        /\ dead = FALSE /\ out = <<>>
Next == \/ /\ More /\ (Has("fc") => E.fc = 0)
           /\ IF Fg = 1 THEN TForged \/ TRl \/ TRlbad
              ELSE
              \/ TBelow \/ TFrel
              \/ TOpen \/ TW \/ TX \/ TWbig \/ TFeed \/ TClose \/ TFlip
              \/ TR \/ TRr \/ TRl \/ TRbad \/ TRrbad \/ TRlbad \/ TUm \/ TNo \/ TEnd
        \/ TBDone(vars)
Spec == Init /\ [][Next]_<<s, l, vars>>
=============================================================================
