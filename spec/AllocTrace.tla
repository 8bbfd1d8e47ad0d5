------------------------------ MODULE AllocTrace ------------------------------
(* Events of harness/alloc.c judged against Alloc.                           *)
EXTENDS TraceBase
VARIABLES al, hdr
Q == INSTANCE Alloc WITH Regions <- {}, HdrSize <- 0, Sizes <- {},
        EmitEdges <- FALSE, given <- {}, act <- <<>>
vars == <<al, hdr>>
Huge == 1000000
TProbe == IsEvent("probe") /\ E.n > 0 /\ hdr' = E.n /\ UNCHANGED al
TBn == /\ IsEvent("bn") /\ UNCHANGED hdr
       /\ IF E.n >= hdr
          THEN E.st = "ok" /\ Q!Create(E.i, E.n, E.al, hdr)
          ELSE E.st = "oom" /\ E.null = 1 /\ UNCHANGED al
TMn == /\ IsEvent("mn") /\ UNCHANGED hdr
       /\ IF Oom THEN E.st = "oom" /\ E.null = 1 /\ UNCHANGED al
          ELSE E.st = "ok" /\ Q!CreateHeap(E.i)
TA == /\ IsEvent("a") /\ UNCHANGED hdr /\ E.same = 1
      /\ IF al[E.i].k = "bump"
         THEN IF E.st = "ok"
              THEN E.n < Huge /\ Q!AllocBump(E.i, E.n, E.off)
              ELSE E.st = "oom" /\ E.null = 1 /\ Q!RefuseBump(E.i, E.n)
         ELSE IF E.st = "ok"
              THEN ~Oom /\ Q!AllocHeap(E.i, E.b, E.n)
              ELSE E.st = "oom" /\ E.null = 1 /\ (Oom \/ E.n >= Huge)
                   /\ UNCHANGED al
TL == /\ IsEvent("l") /\ UNCHANGED hdr /\ E.same = 1
      /\ IF al[E.i].k = "bump"
         THEN E.st = "ERROR_GENERAL_REALLOCATION_NOT_SUPPORTED" /\ UNCHANGED al
         ELSE IF E.st = "ok" THEN ~Oom /\ Q!AllocHeap(E.i, E.b, E.n)
              ELSE E.st = "oom" /\ (Oom \/ E.n >= Huge) /\ UNCHANGED al
TF == /\ IsEvent("f") /\ UNCHANGED hdr /\ E.st = "ok" /\ E.same = 1
      /\ IF al[E.i].k = "bump" THEN UNCHANGED al ELSE Q!FreeHeap(E.i, E.b)
TK == /\ IsEvent("k") /\ UNCHANGED hdr /\ E.same = 1
      /\ IF al[E.i].k = "bump" /\ E.reset = 1
         THEN E.st = "ok" /\ Q!Reset(E.i)
         ELSE E.st = "ERROR_GENERAL_CONTROL_KEY_INVALID" /\ UNCHANGED al
TR == IsEvent("r") /\ E.st = "ok" /\ E.same = 1 /\ Q!Release(E.i)
      /\ UNCHANGED hdr
(* what a script asks of an allocator or a block it could not get.           *)
TNone == IsEvent("none") /\ E.i \notin Q!AUsed /\ UNCHANGED vars
TNob == /\ IsEvent("nob") /\ UNCHANGED vars
        /\ IF al[E.i].k = "bump" THEN TRUE ELSE E.b \notin DOMAIN al[E.i].b
TEnd == IsEvent("end") /\ E.live = 0 /\ UNCHANGED vars
Init == TBInit /\ al = Q!NoAl /\ hdr = 0
Next == \/ More /\ (TProbe \/ TBn \/ TMn \/ TA \/ TL \/ TF \/ TK \/ TR \/ TNone \/ TNob
                 \/ TEnd)
        \/ TBDone(vars)
Spec == Init /\ [][Next]_<<s, l, vars>>
=============================================================================
