---------------------------- MODULE TraceServer ----------------------------
(* Checks recorded runs of real servers: registrations as in TraceRouting,  *)
(* then requests over any number of connections, each served as module      *)
(* Chain says, independently of all others.                                 *)
(*                                                                          *)
(*   app, route, mw, open, mount   as in TraceRouting                       *)
(*   state  the application state is set        prog  what a name runs      *)
(*   sent   request l.r went out on connection l.c                          *)
(*   ev     an event of l.r inside the server                               *)
(*   go     gate l.g of l.r is opened                                       *)
(*   answer / lost   how l.r ended for the client                           *)
(*   stuck  l.r did not reach a gate in time; surplus: unexpected bytes     *)
(*   closed the client gave up connection l.c                               *)
(*   over   the end of this application                                     *)
EXTENDS Routing, Chain, Json, IOUtils

Prop  == IOEnv.PROP
Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, stack, voided,
          progs, state,
          todo,     \* request -> judged events still to come
          ans,      \* request -> the answer it has to get
          conn,     \* connection -> requests sent on it, in order
          ended,    \* request -> "answer" or "lost"
          open,     \* << request, gate >> opened
          inside,   \* requests some event of which was seen
          gone,     \* connections the client gave up
          twin, got, memo
vars == <<i, stack, voided, progs, state, todo, ans, conn, ended, open, inside, gone, twin, got, memo>>

Top == stack[Len(stack)]

(* A condition as a value: TLC must not split an action at its disjuncts.   *)
Must(b) == TRUE = b

(* Events a property is about.                                              *)
JudgedKinds ==
  CASE Prop = "P01" -> { "enter", "leave", "handler", "done", "back", "panic" }
    [] Prop = "P06" -> { "enter", "leave", "handler", "done", "back", "panic", "gate", "resumed" }
    [] Prop = "P03" -> { "enter", "leave", "handler", "done", "back", "panic" }
    [] OTHER -> {}
JudgedObs ==
  CASE Prop = "P01" -> { "seen", "get" }
    [] Prop = "P05" -> { "get", "mut", "ext", "put", "drop" }
    [] Prop = "P06" -> Looks
    [] Prop = "P07" -> { "get", "mut", "ext", "put", "drop", "hdr", "hdrall" }
    [] Prop = "B02" -> Looks
    [] OTHER -> {}
Judged(e) == IF e.e = "obs" THEN e.k \in JudgedObs ELSE e.e \in JudgedKinds
JudgesAnswers == Prop \in { "P02", "P03", "P06", "S01", "S02" }

Start ==
  /\ stack = << EmptyTable >> /\ voided = FALSE /\ progs = <<>> /\ state = Nothing
  /\ todo = <<>> /\ ans = <<>> /\ conn = <<>> /\ ended = <<>> /\ open = {} /\ inside = {} /\ gone = {}
Init == i = 0 /\ twin = "-" /\ got = <<>> /\ memo = <<>> /\ Start

App(l) ==
  /\ stack' = << EmptyTable >> /\ voided' = FALSE /\ progs' = <<>> /\ state' = Nothing
  /\ todo' = <<>> /\ ans' = <<>> /\ conn' = <<>> /\ ended' = <<>> /\ open' = {} /\ inside' = {} /\ gone' = {}
  /\ twin' = l.h /\ got' = <<>>
  /\ memo' = IF l.h = "B" THEN memo ELSE <<>>

Served == <<progs, state, todo, ans, conn, ended, open, inside, gone, twin, got, memo>>

Register(l, should, t) ==
  /\ stack' = IF l.ok = "ok" /\ should THEN [stack EXCEPT ![Len(stack)] = t] ELSE stack
  /\ voided' = (voided \/ ((l.ok = "ok") # should))
  /\ UNCHANGED Served
Route(l) == LET pat == Segments(l.path) IN Register(l, RouteOK(Top, pat, l.m), AddRoute(Top, pat, l.m, l.h))
Mw(l)    == LET pat == Segments(l.path) IN Register(l, MwOK(Top, pat), AddMw(Top, pat, l.h))
Open(l)  == stack' = Append(stack, EmptyTable) /\ UNCHANGED voided /\ UNCHANGED Served
Mount(l) ==
  LET pat == Segments(l.path)
      sub == Top
      outer == SubSeq(stack, 1, Len(stack) - 1)
      t == outer[Len(outer)]
      should == MountOK(t, pat, sub)
  IN  /\ stack' = IF l.ok = "ok" /\ should THEN [outer EXCEPT ![Len(outer)] = AddMount(t, pat, sub)] ELSE outer
      /\ voided' = (voided \/ ((l.ok = "ok") # should))
      /\ UNCHANGED Served

SetState(l) == state' = "=" \o l.h /\ UNCHANGED <<stack, voided, progs, todo, ans, conn, ended, open, inside, gone, twin, got, memo>>
Prog(l) == progs' = (l.h :> l.prog) @@ progs
           /\ UNCHANGED <<stack, voided, state, todo, ans, conn, ended, open, inside, gone, twin, got, memo>>

(* What this request has to do.                                             *)
ParamsFor(pat, segs) ==
  LET ps == SelectSeq(Indices(pat), LAMBDA k : IsParam(pat[k]) /\ k <= Len(segs))
  IN  [ k \in 1..Len(ps) |-> << NameOf(pat[ps[k]]), segs[ps[k]] >> ]
Course(l) ==
  LET segs == Segments(l.path)
      A == Lookup(Top, l.m, segs)
      env == [progs |-> progs, rid |-> l.r, h |-> A.h, chain |-> SelectSeq(A.mws, LAMBDA x : x # "!logger")]
      r == Serve(env, StartCtx(l, ParamsFor(A.pat, segs), state))
  IN  IF A.found THEN [evs |-> SelectSeq(r.evs, Judged), ans |-> AnswerOf(r)]
      ELSE [evs |-> <<>>, ans |-> NotFoundAnswer]

On(c) == IF c \in DOMAIN conn THEN conn[c] ELSE <<>>

Sent(l) ==
  LET C == Course(l) IN
  /\ todo' = (l.r :> C.evs) @@ todo
  /\ ans' = (l.r :> C.ans) @@ ans
  /\ conn' = (l.c :> Append(On(l.c), l.r)) @@ conn
  /\ UNCHANGED <<stack, voided, progs, state, ended, open, inside, gone, twin, got, memo>>

Known(r) == r \in DOMAIN todo

(* Requests on r's connection sent before r.                                *)
Before(r) ==
  LET c == CHOOSE c \in DOMAIN conn : \E k \in 1..Len(conn[c]) : conn[c][k] = r
      p == CHOOSE k \in 1..Len(conn[c]) : conn[c][k] = r
  IN  { conn[c][k] : k \in 1..(p - 1) }
MayPanic(r) == ans[r].kind = "any"

(* Comparison of twins: what is seen of a request, in order.                *)
Note(r, x) == IF Prop = "P04" THEN got' = (r :> Append(IF r \in DOMAIN got THEN got[r] ELSE <<>>, x)) @@ got ELSE UNCHANGED got

Event(l) ==
  LET e == Ev(l.k, l.who, l.a, l.v) IN
  /\ Must(\/ voided \/ ~Judged(e)
          \/ /\ Known(l.r) /\ todo[l.r] # <<>> /\ todo[l.r][1] = e
             \* one connection, one request at a time
             /\ Prop = "P06" => \A q \in Before(l.r) : todo[q] = <<>> \/ MayPanic(q) \/ q \in DOMAIN ended
             /\ l.k = "resumed" => << l.r, l.a >> \in open
             /\ l.r \notin DOMAIN ended)
  /\ todo' = IF Known(l.r) /\ Judged(e) /\ todo[l.r] # <<>> THEN [todo EXCEPT ![l.r] = Tail(@)] ELSE todo
  /\ inside' = inside \cup { l.r }
  /\ Note(l.r, << l.k, l.who, l.a, l.v >>)
  /\ UNCHANGED <<stack, voided, progs, state, ans, conn, ended, open, gone, twin, memo>>

Go(l) == open' = open \cup { << l.r, l.a >> }
         /\ UNCHANGED <<stack, voided, progs, state, todo, ans, conn, ended, inside, gone, twin, got, memo>>

Own(l) == { << l.headers[k][1], l.headers[k][2] >> : k \in { j \in 1..Len(l.headers) : l.headers[j][1] \notin Framing } }
Answer(l) ==
  /\ Must(\/ voided \/ ~JudgesAnswers
          \/ /\ Known(l.r) /\ l.r \notin DOMAIN ended
             /\ SameAnswer(ans[l.r], l)
             /\ \A q \in Before(l.r) : q \in DOMAIN ended
             /\ todo[l.r] = <<>> \/ MayPanic(l.r))
  /\ Must((Prop = "P04" /\ twin = "B" /\ ~voided /\ l.r \in DOMAIN memo) =>
           memo[l.r] = << IF l.r \in DOMAIN got THEN got[l.r] ELSE <<>>, l.status, Own(l), l.body >>)
  /\ ended' = (l.r :> "answer") @@ ended
  /\ memo' = IF Prop = "P04" /\ twin = "A" /\ ~voided
             THEN (l.r :> << IF l.r \in DOMAIN got THEN got[l.r] ELSE <<>>, l.status, Own(l), l.body >>) @@ memo ELSE memo
  /\ UNCHANGED <<stack, voided, progs, state, todo, ans, conn, open, inside, gone, twin, got>>

(* Only a panic loses a request, and what was waiting behind it on the same *)
(* connection.                                                              *)
MayBeLost(r) ==
  \/ MayPanic(r)
  \/ \E q \in Before(r) : MayPanic(q)
  \/ \E c \in gone \cap DOMAIN conn : \E k \in 1..Len(conn[c]) : conn[c][k] = r
JudgesLoss == Prop \in { "P02", "P03", "P06", "S01", "S02" }
Lost(l) ==
  /\ Must(voided \/ ~JudgesLoss \/ (Known(l.r) /\ l.r \notin DOMAIN ended /\ MayBeLost(l.r)))
  /\ Must((Prop = "P04" /\ twin = "B" /\ ~voided /\ l.r \in DOMAIN memo) => memo[l.r][2] = "lost")
  /\ ended' = (l.r :> "lost") @@ ended
  /\ memo' = IF Prop = "P04" /\ twin = "A" /\ ~voided THEN (l.r :> << <<>>, "lost", {}, "" >>) @@ memo ELSE memo
  /\ UNCHANGED <<stack, voided, progs, state, todo, ans, conn, open, inside, gone, twin, got>>

Stuck(l) ==
  /\ Must(voided \/ Prop \notin { "P03", "P06" } \/ MayBeLost(l.r))
  /\ UNCHANGED <<stack, voided>> /\ UNCHANGED Served

Closed(l) ==
  /\ gone' = gone \cup { l.c }
  /\ UNCHANGED <<stack, voided, progs, state, todo, ans, conn, ended, open, inside, twin, got, memo>>

(* Bytes that belong to no answer.                                          *)
Surplus(l) ==
  /\ Must(voided \/ Prop \notin { "P02", "P06" } \/ l.v = "t:")
  /\ UNCHANGED <<stack, voided>> /\ UNCHANGED Served

Over(l) ==
  /\ Must(voided \/ \A r \in DOMAIN todo :
            /\ r \in DOMAIN ended \/ MayBeLost(r)
            /\ todo[r] = <<>> \/ MayBeLost(r)
            /\ (r \in DOMAIN ended /\ ended[r] = "lost" /\ JudgesLoss) => MayBeLost(r))
  /\ UNCHANGED <<stack, voided>> /\ UNCHANGED Served

Step(l) ==
  CASE l.e = "app"    -> App(l)
    [] l.e = "route"  -> Route(l)
    [] l.e = "mw"     -> Mw(l)
    [] l.e = "open"   -> Open(l)
    [] l.e = "mount"  -> Mount(l)
    [] l.e = "state"  -> SetState(l)
    [] l.e = "prog"   -> Prog(l)
    [] l.e = "sent"   -> Sent(l)
    [] l.e = "ev"     -> Event(l)
    [] l.e = "go"     -> Go(l)
    [] l.e = "answer" -> Answer(l)
    [] l.e = "lost"   -> Lost(l)
    [] l.e = "stuck"  -> Stuck(l)
    [] l.e = "surplus" -> Surplus(l)
    [] l.e = "closed" -> Closed(l)
    [] l.e = "over"   -> Over(l)

Next == i < Len(Trace) /\ i' = i + 1 /\ Step(Trace[i + 1])
Spec == Init /\ [][Next]_vars

Accepted ==
  LET n == TLCGet("stats").diameter - 1
  IN  PrintT(<<"TRACE", n, Len(Trace)>>) /\ n = Len(Trace)
=============================================================================
