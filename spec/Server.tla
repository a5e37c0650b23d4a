------------------------------- MODULE Server -------------------------------
(* The server as a transition system. A request being processed is a stack  *)
(* of frames, one per middleware entered (EndpointExecutor::next), and its  *)
(* own context; a connection has the requests sent on it and not yet begun, *)
(* the one in process and the answers given. All requests proceed step by   *)
(* step in any interleaving. Gates are points in a program where it waits   *)
(* for the client.                                                          *)
EXTENDS Chain

CONSTANTS Conns, Eager   \* Eager: only interleave at gates

VARIABLES env,       \* request -> environment of its processing (fixed)
          start,     \* request -> context it starts with (fixed)
          conn,      \* request -> connection (fixed)
          order,     \* all requests, in the order sent on their connection (fixed)
          sent,      \* requests sent
          queue,     \* connection -> requests sent, not begun
          cur,       \* connection -> request in process, or "-"
          alive,     \* connection -> still served
          runs,      \* request -> its processing, once begun
          out,       \* connection -> << request, answer >> in order
          opened,    \* requests -> gates opened
          state      \* the application's state
svars == << env, start, conn, order, sent, queue, cur, alive, runs, out, opened, state >>

---------------------------------------------------------------------------
(* One request: [st, fr, ctx, err, ek, evs, wait]. st "run": the top frame's    *)
(* program goes on at fr[top].k; "ok"/"err"/"panic": a result is on its way *)
(* out to the top frame, or, without frames, final.                         *)
Begun(ctx) == [st |-> "run", fr |-> << [i |-> 1, k |-> 0] >>, ctx |-> ctx, err |-> "", ek |-> "", evs |-> <<>>, wait |-> ""]

Plain == 0 - 1        \* k of a middleware without program, waiting inside
Over(x) == x.fr = <<>>
TopF(x) == x.fr[Len(x.fr)]
Pop(x) == SubSeq(x.fr, 1, Len(x.fr) - 1)
Log(x, e) == Append(x.evs, e)
Result(x) == IF x.st = "ok" THEN "ok" ELSE ErrText(x.ek, x.err)

IsMw(e, f) == f.i <= Len(e.chain)
Who(e, f) == IF IsMw(e, f) THEN e.chain[f.i] ELSE e.h

(* The top frame ends with result how; its end is an event unless it is a   *)
(* handler without program.                                                 *)
Leave(e, x, how, ek, err, evs) ==
  LET f == TopF(x)
      y == [x EXCEPT !.st = how, !.ek = ek, !.err = err, !.fr = Pop(x), !.evs = evs]
  IN  IF ~IsMw(e, f) /\ ~HasProg(e, e.h) THEN y
      ELSE [y EXCEPT !.evs = Append(evs, Ev(IF IsMw(e, f) THEN "leave" ELSE "done", Who(e, f), "", Result(y)))]

Goto(x, k) == [x EXCEPT !.fr[Len(x.fr)].k = k]
Push(x, i) == [x EXCEPT !.fr = Append(@, [i |-> i, k |-> 0])]

(* A result arrives at the frame that passed the request on.                *)
Arrive(e, x) ==
  LET f == TopF(x)
      who == Who(e, f)
      back == Log(x, Ev("back", who, "", Result(x)))
  IN  IF x.st = "panic" THEN [x EXCEPT !.fr = <<>>]
      ELSE IF f.k = Plain THEN Leave(e, x, x.st, x.ek, x.err, x.evs)
      ELSE IF x.st = "ok" THEN [Goto(x, f.k + 1) EXCEPT !.st = "run", !.evs = back]
      ELSE LET pol == e.progs[who][f.k][2]
           IN CASE pol = "pass" -> Leave(e, x, "err", x.ek, x.err, back)
                [] pol = "wrap" -> Leave(e, x, "err", "general", who \o "[" \o x.err \o "]", back)
                [] pol = "recover" -> [Goto(x, f.k + 1) EXCEPT !.st = "run", !.ek = "", !.err = "", !.evs = back, !.ctx = FreshCtx(e.rid)]

Crash(x, who) == [x EXCEPT !.st = "panic", !.fr = <<>>, !.evs = Log(x, Ev("panic", who, "", ""))]

Execute(e, x) ==
  LET f == TopF(x)
      who == Who(e, f)
  IN
  IF f.k = 0 THEN
    IF IsMw(e, f) THEN
      LET y == [x EXCEPT !.evs = Log(x, Ev("enter", who, "", ""))]
      IN  IF HasProg(e, who) THEN Goto(y, 1) ELSE Push(Goto(y, Plain), f.i + 1)
    ELSE LET y == [x EXCEPT !.evs = Log(x, Ev("handler", who, "", ""))]
         IN  IF HasProg(e, who) THEN Goto(y, 1)
             ELSE Leave(e, [y EXCEPT !.ctx.resp = PlainAnswer(who)], "ok", "", "", y.evs)
  ELSE LET prog == e.progs[who] IN
  IF f.k > Len(prog) THEN Leave(e, x, "ok", "", "", x.evs)
  ELSE LET ins == prog[f.k] IN
  CASE ins[1] \in Looks  -> [Goto(x, f.k + 1) EXCEPT !.ctx = Effect(ins, x.ctx), !.evs = Log(x, Ev("obs", who, ins[1], Look(ins, x.ctx)))]
    [] ins[1] \in Silent -> [Goto(x, f.k + 1) EXCEPT !.ctx = Effect(ins, x.ctx)]
    [] ins[1] = "gate" /\ x.wait = "" -> [x EXCEPT !.wait = ins[2], !.evs = Log(x, Ev("gate", who, ins[2], ""))]
    [] ins[1] = "gate" /\ x.wait # "" -> [Goto(x, f.k + 1) EXCEPT !.wait = "", !.evs = Log(x, Ev("resumed", who, ins[2], ""))]
    [] ins[1] = "panic"  -> Crash(x, who)
    [] ins[1] = "panicif" -> IF HdrsOf(x.ctx, ins[2]) = <<>> THEN Goto(x, f.k + 1) ELSE Crash(x, who)
    [] ins[1] = "err"    -> Leave(e, x, "err", "general", ins[2], x.evs)
    [] ins[1] = "errkind" -> Leave(e, x, "err", ins[2], ins[3], x.evs)
    [] ins[1] = "errif"  -> IF HdrsOf(x.ctx, ins[2]) = <<>> THEN Goto(x, f.k + 1) ELSE Leave(e, x, "err", "general", ins[3], x.evs)
    [] ins[1] = "next"   -> Push(x, f.i + 1)

StepRun(e, x) == IF x.st = "run" THEN Execute(e, x) ELSE Arrive(e, x)

---------------------------------------------------------------------------
Range(s) == { s[k] : k \in 1..Len(s) }
Reqs == Range(order)
InProcess(r) == r \in DOMAIN runs /\ cur[conn[r]] = r
Waiting(r) == InProcess(r) /\ runs[r].wait # "" /\ runs[r].wait \notin opened[r]
CanStep(r) == InProcess(r) /\ ~Over(runs[r]) /\ ~Waiting(r)
CanBegin(c) == alive[c] /\ cur[c] = "-" /\ queue[c] # <<>>
CanFinish(c) == cur[c] # "-" /\ cur[c] \in DOMAIN runs /\ Over(runs[cur[c]])
Busy == (\E r \in Reqs : CanStep(r)) \/ (\E c \in Conns : CanBegin(c) \/ CanFinish(c))
First(r) == ~Eager \/ \A q \in Reqs : CanStep(q) => q = r \/ \E a, b \in 1..Len(order) : a <= b /\ order[a] = r /\ order[b] = q

(* The client: requests go out on a connection in their order, gates open.  *)
SendOK(r) == r \notin sent /\ \A k \in 1..Len(order) : (conn[order[k]] = conn[r] /\ order[k] \notin sent) =>
                 \E j \in 1..k : order[j] = r
Send(r) ==
  /\ Eager => ~Busy
  /\ r \in Reqs /\ SendOK(r)
  /\ sent' = sent \cup { r }
  /\ queue' = IF alive[conn[r]] THEN [queue EXCEPT ![conn[r]] = Append(@, r)] ELSE queue
  /\ UNCHANGED << env, start, conn, order, cur, alive, runs, out, opened, state >>
OpenGate(r) ==
  /\ Eager => ~Busy
  /\ Waiting(r)
  /\ opened' = [opened EXCEPT ![r] = @ \cup { runs[r].wait }]
  /\ UNCHANGED << env, start, conn, order, sent, queue, cur, alive, runs, out, state >>

(* The server.                                                              *)
Begin(c) ==
  /\ CanBegin(c)
  /\ LET r == Head(queue[c]) IN
     /\ cur' = [cur EXCEPT ![c] = r]
     /\ runs' = (r :> Begun([start[r] EXCEPT !.att["S"] = state])) @@ runs
  /\ queue' = [queue EXCEPT ![c] = Tail(@)]
  /\ UNCHANGED << env, start, conn, order, sent, alive, out, opened, state >>
Step(r) ==
  /\ CanStep(r) /\ First(r)
  /\ runs' = [runs EXCEPT ![r] = StepRun(env[r], @)]
  /\ UNCHANGED << env, start, conn, order, sent, queue, cur, alive, out, opened, state >>
AsResult(x) == [evs |-> x.evs, how |-> x.st, ctx |-> x.ctx, err |-> x.err, ek |-> x.ek]
Finish(c) ==
  /\ CanFinish(c)
  /\ LET r == cur[c] IN
     IF runs[r].st = "panic"
     THEN /\ alive' = [alive EXCEPT ![c] = FALSE]
          /\ queue' = [queue EXCEPT ![c] = <<>>]
          /\ UNCHANGED out
     ELSE /\ out' = [out EXCEPT ![c] = Append(@, << r, AnswerOf(AsResult(runs[r])) >>)]
          /\ UNCHANGED << alive, queue >>
  /\ cur' = [cur EXCEPT ![c] = "-"]
  /\ UNCHANGED << env, start, conn, order, sent, runs, opened, state >>

Client == \E r \in Reqs : Send(r) \/ OpenGate(r)
ServerStep == (\E c \in Conns : Begin(c) \/ Finish(c)) \/ \E r \in Reqs : Step(r)

---------------------------------------------------------------------------
(* What has to hold.                                                        *)
Alone(r) == Serve(env[r], [start[r] EXCEPT !.att["S"] = state])
IsPrefix(s, t) == Len(s) <= Len(t) /\ SubSeq(t, 1, Len(s)) = s

(* P06/P01: whatever else is going on, a request does what it would do      *)
(* alone, and ends as it would alone.                                       *)
Isolated == \A r \in DOMAIN runs : IsPrefix(runs[r].evs, Alone(r).evs)
EndsAlike == \A r \in DOMAIN runs : Over(runs[r]) =>
               LET a == Alone(r) IN runs[r].evs = a.evs /\ runs[r].st = a.how /\ (a.how = "err" => runs[r].err = a.err /\ runs[r].ek = a.ek)
                                    /\ (a.how = "ok" => runs[r].ctx = a.ctx)
(* P01: the onion, read off the events alone.                               *)
Count(x, k, who) == Cardinality({ j \in 1..Len(x.evs) : x.evs[j].e = k /\ x.evs[j].who = who })
Onion == \A r \in DOMAIN runs :
  LET x == runs[r]
      ch == env[r].chain
      At(k, who) == IF Count(x, k, who) = 0 THEN 0 ELSE CHOOSE j \in 1..Len(x.evs) : x.evs[j].e = k /\ x.evs[j].who = who
  IN  /\ \A k \in 1..Len(ch) : Count(x, "enter", ch[k]) <= 1 /\ Count(x, "leave", ch[k]) <= Count(x, "enter", ch[k])
      /\ Count(x, "handler", env[r].h) <= 1
      /\ \A k \in 1..(Len(ch) - 1) : Count(x, "enter", ch[k + 1]) = 1 => 0 < At("enter", ch[k]) /\ At("enter", ch[k]) < At("enter", ch[k + 1])
      /\ Count(x, "handler", env[r].h) = 1 => \A k \in 1..Len(ch) : 0 < At("enter", ch[k]) /\ At("enter", ch[k]) < At("handler", env[r].h)
      /\ \A k \in 1..(Len(ch) - 1) : Count(x, "leave", ch[k]) = 1 =>
            (Count(x, "enter", ch[k + 1]) = 1 => 0 < At("leave", ch[k + 1]) /\ At("leave", ch[k + 1]) < At("leave", ch[k]))
(* P06: one at a time and in order on a connection, each at most once.      *)
InOrder == \A c \in Conns :
  LET mine == SelectSeq(order, LAMBDA r : conn[r] = c)
  IN  IsPrefix([ k \in 1..Len(out[c]) |-> out[c][k][1] ], mine)
(* P02: the answer is the one the request's own processing calls for.       *)
OwnAnswer == \A c \in Conns : \A k \in 1..Len(out[c]) :
  out[c][k][2] = AnswerOf(Alone(out[c][k][1]))
(* P05: nothing done to a request's copy changes the application's state.   *)
SameState == [][ state' = state ]_svars
(* P03: at rest every request was answered unless its connection died of a  *)
(* panic of it or of one before it.                                         *)
Rest == ~Busy /\ sent = Reqs /\ \A r \in Reqs : ~Waiting(r)
NothingLost == Rest => \A r \in Reqs :
  \/ \E k \in 1..Len(out[conn[r]]) : out[conn[r]][k][1] = r
  \/ \E q \in Reqs : conn[q] = conn[r] /\ q \in DOMAIN runs /\ runs[q].st = "panic"
                     /\ \E a, b \in 1..Len(order) : a <= b /\ order[a] = q /\ order[b] = r
(* P03: a connection ends only by its own panic.                            *)
AliveUnlessPanic == \A c \in Conns : alive[c] \/ \E q \in DOMAIN runs : conn[q] = c /\ runs[q].st = "panic"
=============================================================================
