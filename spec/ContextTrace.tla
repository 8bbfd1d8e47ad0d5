------------------------------ MODULE ContextTrace ------------------------------
(* Events of harness/ctx.c judged against Context.                            *)
(*   ph: what must happen next                                                 *)
(*     "new"   nothing exists     "main"  the callback was told of the main    *)
(*     "free"  the current fiber decides      "cb" the scheduler must be asked *)
(*     "into"  the chosen fiber must go on    "over" released                  *)
EXTENDS TraceBase
VARIABLES K, ph, ask, got
Q == INSTANCE Context WITH NF <- 8, MaxDepth <- 0, EmitEdges <- FALSE,
        act <- <<>>, mine <- <<>>
vars == <<K, ph, ask, got>>
Keep == UNCHANGED <<K, ask, got>>
YRun == 0
YMain == 1
YAdd == 2
YStop == 3
YRelease == 4
Ctx == 50
(* a new fiber's registers but for the control words are its own business. *)
Fresh == <<"fresh">>

TCbMain == /\ IsEvent("cb") /\ ph = "new" /\ E.ev = YMain /\ E.ctx = Ctx
           /\ E.null = 1 /\ E.id = 1
           /\ ph' = "main" /\ Keep
(* a scheduler that cannot be completed is told to clean up, at most once. *)
TCbUndo == /\ IsEvent("cb") /\ ph = "main" /\ E.ev = YRelease /\ E.ctx = Ctx
           /\ E.null = 1 /\ ph' = "undone" /\ Keep
TCr == /\ IsEvent("cr") /\ Keep
       /\ IF Oom THEN ph = "new" /\ E.st = "oom" /\ E.null = 1 /\ ph' = "over"
          ELSE IF E.mode = 0
          THEN ph = "main" /\ E.st = "ok" /\ E.null = 0 /\ ph' = "free"
          ELSE /\ ph \in {"main", "undone"} /\ E.null = 1 /\ ph' = "over"
               /\ IF E.mode = 1 THEN E.raw = 77
                  ELSE E.st = "ERROR_FIBER_SCHEDULER_CALLBACK_STATE"
TNone == IsEvent("none") /\ ph = "free" /\ UNCHANGED ph /\ Keep
TFn == /\ IsEvent("fn") /\ ph = "free" /\ UNCHANGED <<ph, ask, got>>
       /\ IF Oom THEN E.st = "oom" /\ E.null = 1 /\ UNCHANGED K
          ELSE /\ E.st = "ok" /\ E.null = 0 /\ E.state = 0 /\ E.same = 1
               /\ K.st[E.f] = "none"
                    /\ K' = Q!Create(K, E.f, <<E.mx, E.cw>>)
TGo == /\ IsEvent("go") /\ ph = "free" /\ E.fib = K.cur
       /\ ask' = [ev |-> CASE E.kind = 0 -> E.yev [] E.kind = 1 -> YAdd
                           [] E.kind = 2 -> YRun,
                  par |-> CASE E.kind = 0 -> E.ypar [] E.kind = 1 -> E.f
                            [] E.kind = 2 -> -1,
                  how |-> CASE E.kind = 0 -> "yield" [] E.kind = 1 -> "add"
                            [] E.kind = 2 -> "run"]
       /\ K' = [K EXCEPT !.cpu = E.set] /\ ph' = "cb" /\ UNCHANGED got
TCb == /\ IsEvent("cb") /\ ph = "cb" /\ E.ctx = Ctx
       /\ E.ev = ask.ev /\ E.fib = K.cur /\ E.par = ask.par
       /\ UNCHANGED ask /\ ph' = "into"
       /\ IF E.st # 0
          THEN /\ K' = [K EXCEPT !.how[K.cur] = ask.how]
               /\ got' = [st |-> E.st, d |-> -1, ev |-> -1, par |-> -1]
          ELSE LET k == IF ask.ev = YAdd /\ ask.how = "add"
                        THEN Q!Adopt(K, ask.par) ELSE K
               IN /\ Q!Ready(k, E.to)
                  /\ K' = Q!Switch(k, ask.how, E.to, Fresh)
                  /\ got' = [st |-> 0, d |-> E.d, ev |-> E.rev, par |-> E.rpar]
(* the chosen fiber goes on where it was, with everything it had ...          *)
TRes == /\ IsEvent("res") /\ ph = "into" /\ K.cur = E.fib /\ K.cpu # Fresh
        /\ E.got = K.cpu /\ E.st = got.st
        /\ (got.st = 0 /\ K.how[K.cur] = "yield") =>
              /\ Has("d") /\ E.d = got.d /\ E.ev = got.ev /\ E.par = got.par
        /\ ph' = "free" /\ Keep
(* ... or enters its function for the first time.                             *)
TStart == /\ IsEvent("start") /\ ph = "into" /\ K.cur = E.fib /\ K.cpu = Fresh
          /\ E.align = 0 /\ K.ctl[E.fib] = <<E.mx, E.cw>>
          /\ E.state = 1
          /\ ph' = "free" /\ Keep
TDeep == /\ IsEvent("deep") /\ ph = "free" /\ E.fib = K.cur
         /\ K' = Q!Deeper(K) /\ UNCHANGED <<ph, ask, got>>
         /\ Q!Depth(K', K.cur) = E.n
TPop == /\ IsEvent("pop") /\ ph \in {"free", "exit"} /\ E.fib = K.cur
        /\ E.ok = 1 /\ E.n = Q!Depth(K, K.cur) /\ UNCHANGED got
        /\ IF E.n > 0 THEN K' = Q!Shallower(K) /\ UNCHANGED <<ph, ask>>
           ELSE /\ UNCHANGED <<K, ask>>
                /\ IF K.cur = 0 THEN ph = "free" /\ ph' = "fin"
                   ELSE ph = "exit" /\ ph' = "cb"
(* a fiber function that returns: the scheduler is told, with its status.     *)
TExit == /\ IsEvent("exit") /\ ph = "free" /\ E.fib = K.cur /\ K.cur # 0
         /\ ask' = [ev |-> YStop, par |-> E.v, how |-> "stop"]
         /\ ph' = "exit" /\ UNCHANGED <<K, got>>
TCbEnd == /\ IsEvent("cb") /\ ph = "fin" /\ E.ev = YRelease /\ E.ctx = Ctx
          /\ E.fib = 0 /\ E.null = 1 /\ E.rst = 0 /\ ph' = "over" /\ Keep
TEnd == IsEvent("end") /\ ph = "over" /\ E.rc = 0 /\ E.live = 0
        /\ UNCHANGED ph /\ Keep
Init == TBInit /\ K = Q!K0 /\ ph = "new" /\ ask = <<>> /\ got = <<>>
Next == \/ /\ More
           /\ \/ TCbMain \/ TCbUndo \/ TCr \/ TNone \/ TFn \/ TGo \/ TCb \/ TRes
              \/ TStart \/ TDeep \/ TPop \/ TExit \/ TCbEnd \/ TEnd
        \/ TBDone(vars)
Spec == Init /\ [][Next]_<<s, l, vars>>
=============================================================================
