------------------------------- MODULE TextTrace -------------------------------
(* Events of harness/text.c judged against Text: each call is one step.      *)
EXTENDS TraceBase
Q == INSTANCE Text WITH Alpha <- {}, MaxLen <- 0, UBytes <- {}, x <- <<>>,
        u <- <<>>
TWs == IsEvent("ws") /\ E.v = <<9, 10, 11, 12, 13, 32>>
TLt == IsEvent("lt") /\ E.out = Q!LTrim(E.in)
TRt == IsEvent("rt") /\ E.out = Q!RTrim(E.in)
TTm == IsEvent("tm") /\ E.out = Q!Trim(E.in)
TCh == IsEvent("ch") /\ E.out = Q!Chomp(E.in)
Ended == E.st = "ERROR_STRING_END_OF_INPUT" /\ E.null = 1
TWd == IsEvent("wd") /\ E.out = Q!Words(E.in) /\ Ended /\ E.inside = 1
TMs == IsEvent("ms") /\ E.out = Q!SplitBy(E.in, SeqSet(E.tok)) /\ Ended
       /\ E.inside = 1
TSp == /\ IsEvent("sp")
       /\ IF Q!Has1(E.in, E.d)
          THEN E.st = "ok" /\ E.l = Q!Lhs(E.in, E.d) /\ E.r = Q!Rhs(E.in, E.d)
          ELSE Ended
TSw == /\ IsEvent("sw")
       /\ E.b = 1 <=> (E.n2 = 1 \/ (E.n1 = 0 /\ Q!Starts(E.in, E.sub)))
TEw == IsEvent("ew") /\ (E.b = 1 <=> Q!Ends(E.in, E.c))
TSd == /\ IsEvent("sd")
       /\ IF E.n1 = 1 THEN E.st = "ERROR_STRING_INVALID_PARAMETER" /\ E.null = 1
          ELSE IF Oom THEN E.st = "oom" /\ E.null = 1
          ELSE E.st = "ok" /\ E.out = E.in /\ E.fresh = 1
TSc == /\ IsEvent("sc")
       /\ IF Oom THEN E.st = "oom" ELSE E.st = "ok" /\ E.out = Q!Cat(E.in)
TUs == /\ IsEvent("us") /\ E.kept = 1
       /\ IF Oom THEN E.st = "oom" /\ E.null = 1
          ELSE E.st = "ok" /\ E.out = Q!Show(E.in)
Before == [b \in 1..16 |-> 191 + b]
TUp == /\ (IsEvent("up") \/ IsEvent("ur"))
       /\ IF E.n1 = 0 /\ E.n = Len(E.in) /\ Q!IsUuid(E.in)
          THEN E.st = "ok" /\ E.out = Q!Parse(E.in)
          ELSE E.st = "ERROR_UUID_PARSING_FAILED" /\ E.out = Before
TEnd == IsEvent("end") /\ E.live = 0
Init == TBInit
Next == \/ /\ More
           /\ \/ TWs \/ TLt \/ TRt \/ TTm \/ TCh \/ TWd \/ TMs \/ TSp \/ TSw
              \/ TEw \/ TSd \/ TSc \/ TUs \/ TUp \/ TEnd
        \/ TBDone(s)
Spec == Init /\ [][Next]_<<s, l>>
=============================================================================
