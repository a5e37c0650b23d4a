---------------------------- MODULE TraceStatic ----------------------------
(* Checks recorded runs of servers with static file routes.                 *)
(*   app, route, mw, open, mount   as in TraceRouting; a static route is a  *)
(*          route with handler name l.h for which a line "static" tells the *)
(*          directory l.dir and how many segments come before the file      *)
(*   write, remove, mkdir          changes of the file system               *)
(*   get    a request, its segments and how it was answered                 *)
EXTENDS Routing, StaticFiles, TLC, Json, IOUtils

Prop  == IOEnv.PROP
Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, stack, statics, files, dirs, voided
vars == << i, stack, statics, files, dirs, voided >>
Init == i = 0 /\ stack = << EmptyTable >> /\ statics = <<>> /\ files = <<>> /\ dirs = { <<>> } /\ voided = FALSE

Top == stack[Len(stack)]
FS == << files, dirs >>

Register(l, should, t) ==
  /\ stack' = IF l.ok = "ok" /\ should THEN [stack EXCEPT ![Len(stack)] = t] ELSE stack
  /\ voided' = (voided \/ ((l.ok = "ok") # should))
  /\ UNCHANGED << statics, files, dirs >>
Route(l) == LET pat == Segments(l.path) IN Register(l, RouteOK(Top, pat, l.m), AddRoute(Top, pat, l.m, l.h))
Mw(l)    == LET pat == Segments(l.path) IN Register(l, MwOK(Top, pat), AddMw(Top, pat, l.h))
Open(l)  == stack' = Append(stack, EmptyTable) /\ UNCHANGED << statics, files, dirs, voided >>
Mount(l) ==
  LET pat == Segments(l.path)
      sub == Top
      outer == SubSeq(stack, 1, Len(stack) - 1)
      t == outer[Len(outer)]
      should == MountOK(t, pat, sub)
  IN  /\ stack' = IF l.ok = "ok" /\ should THEN [outer EXCEPT ![Len(outer)] = AddMount(t, pat, sub)] ELSE outer
      /\ voided' = (voided \/ ((l.ok = "ok") # should))
      /\ UNCHANGED << statics, files, dirs >>
Static(l) == statics' = (l.h :> [dir |-> l.dir]) @@ statics /\ UNCHANGED << stack, files, dirs, voided >>

App(l) ==
  /\ stack' = << EmptyTable >> /\ statics' = <<>> /\ files' = <<>> /\ dirs' = { <<>> } /\ voided' = FALSE
Write(l) == files' = Put(files, l.p, l.sum) /\ dirs' = dirs \cup Parents(l.p) /\ UNCHANGED << stack, statics, voided >>
Remove(l) == files' = Del(files, l.p) /\ UNCHANGED << dirs, stack, statics, voided >>
Mkdir(l) == dirs' = dirs \cup Parents(l.p) \cup { l.p } /\ UNCHANGED << files, stack, statics, voided >>

(* A percent sign in a path may or may not be the beginning of an escape.   *)
HasPercent(segs) == \E k \in 1..Len(segs) : \E j \in 1..Len(segs[k]) : SubSeq(segs[k], j, j) = "%"
Success(l) == SubSeq(l.status, 1, 1) = "2"
Get(l) ==
  LET segs == Segments(l.path)
      A == Lookup(Top, l.m, segs)
      isStatic == A.found /\ A.h \in DOMAIN statics
      D == statics[A.h].dir
      rel == SubSeq(segs, Len(A.pat), Len(segs))
      ans == [st |-> IF Success(l) THEN "2xx" ELSE l.status, what |-> l.body]
  IN
  /\ TRUE = (voided
       \/ (isStatic /\ Prop = "F01" /\ Contained(files, D, ans))
       \/ (isStatic /\ Prop = "F02" /\ ((Plain(rel) /\ ~HasPercent(rel)) => Exact(files, D, rel, [ans EXCEPT !.st = l.status])))
       \/ (~isStatic /\ Prop = "F01" /\ ~(Success(l) /\ l.body \in { files[p] : p \in DOMAIN files }))
       \/ (~isStatic /\ Prop = "F02" /\ IF A.found THEN l.status = "200" /\ l.body = "t:h:" \o A.h ELSE l.status = "404"))
  /\ UNCHANGED << stack, statics, files, dirs, voided >>

Step(l) ==
  CASE l.e = "app"    -> App(l)
    [] l.e = "route"  -> Route(l)
    [] l.e = "mw"     -> Mw(l)
    [] l.e = "open"   -> Open(l)
    [] l.e = "mount"  -> Mount(l)
    [] l.e = "static" -> Static(l)
    [] l.e = "write"  -> Write(l)
    [] l.e = "remove" -> Remove(l)
    [] l.e = "mkdir"  -> Mkdir(l)
    [] l.e = "get"    -> Get(l)

Next == i < Len(Trace) /\ i' = i + 1 /\ Step(Trace[i + 1])
Spec == Init /\ [][Next]_vars

Accepted ==
  LET n == TLCGet("stats").diameter - 1
  IN  PrintT(<<"TRACE", n, Len(Trace)>>) /\ n = Len(Trace)
=============================================================================
