---------------------------- MODULE TraceRouting ----------------------------
(* Checks recorded runs of real applications against module Routing. One    *)
(* trace holds many applications one after the other; every line is one     *)
(* registration call or one answered request, in the order they happened.   *)
(*                                                                          *)
(*   app    a new, empty application; twin "A" starts a group, "B" is a     *)
(*          further member to be compared with it, "-" stands alone         *)
(*   route, mw, open, mount   a registration call and its outcome           *)
(*   req    one request and everything seen of it                           *)
(*                                                                          *)
(* Prop selects which property's obligations a line has to meet; the state  *)
(* always follows the registrations the code accepted.                      *)
EXTENDS Routing, TLC, Json, IOUtils

Prop  == IOEnv.PROP
Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i,       \* lines consumed
          stack,   \* routers under construction; the first is the application's
          voided,  \* the code accepted what the specification refuses: the
                   \* table is meaningless, nothing more is judged in this app
          refused, \* something was refused although acceptable
          twin, memo
vars == <<i, stack, voided, refused, twin, memo>>

Top == stack[Len(stack)]
Put(t) == [stack EXCEPT ![Len(stack)] = t]

Init ==
  /\ i = 0 /\ stack = << EmptyTable >> /\ voided = FALSE /\ refused = FALSE
  /\ twin = "-" /\ memo = <<>>

(* Must the outcome ("ok" / "refused") be the one the specification says?   *)
JudgesOutcome(l, should) ==
  \/ Prop = "R06"
  \/ Prop = "R08" /\ l.e = "mount" /\ twin # "B"
  \/ Prop = "R02" /\ should        \* must be registrable

Outcome(l, should) ==
  TRUE = (voided \/ ~JudgesOutcome(l, should) \/ (l.ok = "ok") = should)

Register(l, should, t) ==
  /\ Outcome(l, should)
  /\ stack' = IF l.ok = "ok" /\ should THEN Put(t) ELSE stack
  /\ voided' = (voided \/ (l.ok = "ok" /\ ~should))
  /\ refused' = (refused \/ (l.ok # "ok" /\ (should \/ Prop = "R05")))
  /\ UNCHANGED <<twin, memo>>

App(l) ==
  /\ stack' = << EmptyTable >> /\ voided' = FALSE /\ refused' = FALSE
  /\ twin' = l.h
  /\ memo' = IF l.h = "B" THEN memo ELSE <<>>

Route(l) ==
  LET pat == Segments(l.path)
  IN  Register(l, RouteOK(Top, pat, l.m), AddRoute(Top, pat, l.m, l.h))

Mw(l) ==
  LET pat == Segments(l.path)
  IN  Register(l, MwOK(Top, pat), AddMw(Top, pat, l.h))

Open(l) == stack' = Append(stack, EmptyTable) /\ UNCHANGED <<voided, refused, twin, memo>>

Mount(l) ==
  LET pat    == Segments(l.path)
      sub    == Top
      outer  == SubSeq(stack, 1, Len(stack) - 1)
      t      == outer[Len(outer)]
      should == MountOK(t, pat, sub)
  IN  /\ Outcome(l, should)
      /\ stack' = IF l.ok = "ok" /\ should
                  THEN [outer EXCEPT ![Len(outer)] = AddMount(t, pat, sub)] ELSE outer
      /\ voided' = (voided \/ (l.ok = "ok" /\ ~should))
      /\ refused' = (refused \/ (l.ok # "ok" /\ (should \/ Prop = "R05")))
      /\ UNCHANGED <<twin, memo>>

---------------------------------------------------------------------------
(* One request: l.m l.path -> l.status, l.body; l.hs handlers that ran,     *)
(* l.ran middleware in order of entry, l.params pairs seen by the handler   *)
(* among l.names; l.lost # "" if no answer came.                            *)
Silent404(l) == l.lost = "" /\ l.status = "404" /\ l.hs = <<>> /\ l.ran = <<>>

Answered(l, h) == l.lost = "" /\ l.status = "200" /\ l.hs = <<h>> /\ l.body = "t:h:" \o h

DispatchOK(l) ==
  LET A == Lookup(Top, l.m, Segments(l.path))
  IN  IF A.found THEN Answered(l, A.h) ELSE Silent404(l)

(* The registered pattern of the handler that really ran (if exactly one    *)
(* known one did), so that these obligations do not depend on dispatch. A   *)
(* router mounted at several places has its handlers at several patterns:   *)
(* then it is the one that matches the path best.                           *)
Known(l) == Len(l.hs) = 1 /\ \E r \in Top.routes : r.h = l.hs[1]
PatternRun(l) ==
  LET P == { r.pat : r \in { q \in Top.routes : q.h = l.hs[1] } }
      M == { p \in P : Matches(p, Segments(l.path)) }
      C == IF M = {} THEN P ELSE M
  IN  IF Cardinality(C) = 1 \/ M = {} THEN CHOOSE p \in C : TRUE
      ELSE CHOOSE p \in C : \A q \in C : q = p \/ MoreSpecific(p, q)

MwsOK(l) ==
  IF Known(l) THEN l.ran = MwsOf(Top, PatternRun(l))
  ELSE l.hs = <<>> /\ l.status = "404" => l.ran = <<>>

SeenFor(l, name) == { k \in 1..Len(l.params) : l.params[k][1] = name }
ParamsOK(l) ==
  Known(l) =>
    LET pat  == PatternRun(l)
        segs == Segments(l.path)
    IN  /\ Len(segs) >= Len(pat) - 1
        /\ \A k \in 1..Len(l.names) :
             LET nm == l.names[k] IN
             IF HasParam(pat, nm) /\ (CHOOSE q \in ParamPositions(pat, nm) : \A w \in ParamPositions(pat, nm) : q <= w) <= Len(segs)
             THEN SeenFor(l, nm) # {} /\ \A q \in SeenFor(l, nm) : l.params[q][2] = ParamValue(pat, segs, nm)
             ELSE SeenFor(l, nm) = {}

(* Middleware run, by path: the order on one path is free across orders, so *)
(* a run is cut where the paths of the answering pattern change (one object *)
(* may stand at several of them) and each piece is a bag.                   *)
Bag(ran) == { <<ran[k], Cardinality({ j \in 1..Len(ran) : ran[j] = ran[k] })>> : k \in 1..Len(ran) }
RECURSIVE Cut(_, _)
Cut(sizes, ran) ==
  IF sizes = <<>> THEN <<>>
  ELSE <<Bag(SubSeq(ran, 1, Head(sizes)))>> \o Cut(Tail(sizes), SubSeq(ran, Head(sizes) + 1, Len(ran)))
ByPath(l) ==
  IF Known(l) /\ Len(l.ran) = Len(MwsOf(Top, PatternRun(l)))
  THEN LET pat == PatternRun(l)
       IN  Cut([ d \in 1..Len(pat) + 1 |-> Len(MwsAt(Top, SubSeq(pat, 1, d - 1))) ], l.ran)
  ELSE <<Bag(l.ran)>>

View(l) ==
  [st |-> l.status \o l.lost, hs |-> l.hs, ps |-> l.params,
   ms |-> IF Prop = "R05" THEN ByPath(l) ELSE l.ran]

RequestOK(l) ==
  CASE Prop \in {"R01", "R03"} -> DispatchOK(l)
    [] Prop = "R02" -> DispatchOK(l) /\ MwsOK(l)
    [] Prop = "R04" -> ParamsOK(l)
    [] Prop = "R07" -> MwsOK(l)
    [] Prop \in {"R05", "R06", "R08"} ->
         (twin = "B" /\ ~refused) => (l.n \in DOMAIN memo => View(l) = memo[l.n])
    [] OTHER -> TRUE

(* The guard is compared with TRUE so that TLC evaluates it as a value.     *)
Request(l) ==
  /\ TRUE = (voided \/ RequestOK(l))
  /\ memo' = IF twin = "A" /\ ~voided /\ ~refused THEN (l.n :> View(l)) @@ memo ELSE memo
  /\ UNCHANGED <<stack, voided, refused, twin>>

Step(l) ==
  CASE l.e = "app"   -> App(l)
    [] l.e = "route" -> Route(l)
    [] l.e = "mw"    -> Mw(l)
    [] l.e = "open"  -> Open(l)
    [] l.e = "mount" -> Mount(l)
    [] l.e = "req"   -> Request(l)

Next == i < Len(Trace) /\ i' = i + 1 /\ Step(Trace[i + 1])

Spec == Init /\ [][Next]_vars

Accepted ==
  LET n == TLCGet("stats").diameter - 1
  IN  PrintT(<<"TRACE", n, Len(Trace)>>) /\ n = Len(Trace)
=============================================================================
