------------------------------- MODULE Chain -------------------------------
(* What serving one request means: the request's context, the programs of   *)
(* middleware and handlers, and how they nest. Serving is a function of the *)
(* application and the request alone: Serve(env, chain, handler, ctx) gives *)
(* the visible events in order, and how processing ended.                   *)
(*                                                                          *)
(* A program is a sequence of instructions, each a sequence of texts; a     *)
(* middleware without program passes on and returns what it got, a handler  *)
(* without program answers 200 with its own name.                           *)
EXTENDS FormData, JsonText, TLC

(* Kinds of attached values: each its own, however alike they are named.     *)
Types == { "A", "B", "C", "S", "string", "M1", "M2", "S2", "W1", "W2", "boxed", "bytes", "arc", "opt", "pair", "big",
           "unit", "unit2", "n0", "n1", "n2", "n3", "n4", "n5", "n6", "n7", "n8", "n9", "n10", "n11", "n12", "n13", "n14", "n15" }
Nothing == "-"                \* no value; values are written "=v"
NoResp == [st |-> Nothing, hdrs |-> <<>>, body |-> ""]

Ev(e, who, k, v) == [e |-> e, who |-> who, k |-> k, v |-> v]

(* The context a request starts with.                                       *)
StartCtx(rq, params, state) ==
  [ att |-> [ t \in Types |-> IF t = "S" THEN state ELSE Nothing ],
    hdrs |-> rq.hdrs, method |-> rq.m, path |-> rq.path, query |-> rq.query, qbytes |-> rq.q,
    params |-> params, body |-> rq.b, bsum |-> rq.bsum, taken |-> FALSE, resp |-> NoResp ]

(* The context a middleware makes up after an inner error.                  *)
FreshCtx(rid) ==
  [ att |-> [ t \in Types |-> Nothing ],
    hdrs |-> << << "x-rid", rid >> >>, method |-> "GET", path |-> "/", query |-> Nothing, qbytes |-> <<>>,
    params |-> <<>>, body |-> <<>>, bsum |-> "t:", taken |-> FALSE, resp |-> NoResp ]

HdrsOf(ctx, n) == SelectSeq(ctx.hdrs, LAMBDA h : h[1] = n)
ParamOf(ctx, n) == SelectSeq(ctx.params, LAMBDA p : p[1] = n)

RECURSIVE JoinText(_, _)
JoinText(ss, sep) == IF ss = <<>> THEN "" ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o sep \o JoinText(Tail(ss), sep)

(* Bytes of a printable text.                                               *)
Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeOf == [ c \in { SubSeq(Printable, k, k) : k \in 1..95 } |-> 31 + CHOOSE k \in 1..95 : SubSeq(Printable, k, k) = c ]
TextBytes(s) == [ k \in 1..Len(s) |-> CodeOf[SubSeq(s, k, k)] ]

MapListShape == [t |-> "map", s |-> [t |-> "list", s |-> [t |-> "string"]]]
IntMapShape == [t |-> "map", s |-> [t |-> "i32"]]
BodyNow(ctx) == IF ctx.taken THEN <<>> ELSE ctx.body
SumNow(ctx) == IF ctx.taken THEN "t:" ELSE ctx.bsum

SeenText(r) ==
  IF r = NoResp THEN Nothing
  ELSE "=" \o r.st \o " " \o JoinText([ k \in 1..Len(r.hdrs) |-> r.hdrs[k][1] \o ":" \o r.hdrs[k][2] ], ",")

(* The value an instruction observes, for those that only look.             *)
Looks == { "get", "hdr", "hdrall", "method", "path", "query", "param", "qp", "seen", "take", "form", "json", "mut",
           "pint", "qp1", "form1", "json1",
           "put", "drop", "ext" }
Look(ins, ctx) ==
  CASE ins[1] \in { "get", "ext", "put", "drop" } -> ctx.att[ins[2]]  \* the last two: what was there before
    [] ins[1] = "mut"    -> IF ctx.att[ins[2]] = Nothing THEN "no" ELSE "yes"
    [] ins[1] = "hdr"    -> LET H == HdrsOf(ctx, ins[2]) IN IF H = <<>> THEN Nothing ELSE "=t:" \o H[1][2]
    [] ins[1] = "hdrall" -> LET H == HdrsOf(ctx, ins[2]) IN JoinText([ k \in 1..Len(H) |-> "t:" \o H[k][2] ], "|")
    [] ins[1] = "method" -> ctx.method
    [] ins[1] = "path"   -> "t:" \o ctx.path
    [] ins[1] = "query"  -> IF ctx.query = Nothing THEN Nothing ELSE "=t:" \o SubSeq(ctx.query, 2, Len(ctx.query))
    [] ins[1] = "param"  -> LET P == ParamOf(ctx, ins[2]) IN IF P = <<>> THEN "err" ELSE "=t:" \o P[1][2]
    [] ins[1] = "qp"     -> DecodeForm(MapListShape, ctx.qbytes)
    [] ins[1] = "seen"   -> SeenText(ctx.resp)
    [] ins[1] = "take"   -> SumNow(ctx)
    [] ins[1] = "form"   -> DecodeForm(MapListShape, BodyNow(ctx))
    [] ins[1] = "json"   -> DecodeJson([t |-> "any"], BodyNow(ctx))
    [] ins[1] = "pint"   -> LET P == ParamOf(ctx, ins[2]) IN IF P = <<>> THEN "err" ELSE ScalarText("i32", TextBytes(P[1][2]))
    [] ins[1] = "qp1"    -> DecodeForm(IntMapShape, ctx.qbytes)
    [] ins[1] = "form1"  -> DecodeForm(IntMapShape, BodyNow(ctx))
    [] ins[1] = "json1"  -> DecodeJson(IntMapShape, BodyNow(ctx))

(* Its effect on the context.                                               *)
SetHdr(hs, n, v) == Append(SelectSeq(hs, LAMBDA h : h[1] # n), << n, v >>)
EchoText(ctx) ==
  LET tag == HdrsOf(ctx, "x-tag")
      p   == ParamOf(ctx, "p")
      Bare(v) == IF v = Nothing THEN Nothing ELSE SubSeq(v, 2, Len(v))
  IN  ctx.method \o " " \o ctx.path \o " " \o Bare(ctx.query) \o " " \o (IF tag = <<>> THEN "-" ELSE tag[1][2]) \o " "
      \o Bare(ctx.att["A"]) \o " " \o (IF p = <<>> THEN "-" ELSE p[1][2]) \o " " \o SumNow(ctx)

Effect(ins, ctx) ==
  CASE ins[1] \in { "add", "put" } -> [ctx EXCEPT !.att[ins[2]] = "=" \o ins[3]]
    [] ins[1] = "mut"     -> IF ctx.att[ins[2]] = Nothing THEN ctx ELSE [ctx EXCEPT !.att[ins[2]] = "=" \o ins[3]]
    [] ins[1] = "drop"    -> [ctx EXCEPT !.att[ins[2]] = Nothing]
    [] ins[1] = "apphdr"  -> [ctx EXCEPT !.hdrs = Append(@, << ins[2], ins[3] >>)]
    [] ins[1] = "clearhdrs" -> IF ctx.resp = NoResp THEN ctx ELSE [ctx EXCEPT !.resp.hdrs = <<>>]
    [] ins[1] = "sethdr"  -> [ctx EXCEPT !.hdrs = SetHdr(@, ins[2], ins[3])]
    [] ins[1] = "delhdr"  -> [ctx EXCEPT !.hdrs = SelectSeq(@, LAMBDA h : h[1] # ins[2])]
    [] ins[1] \in { "take", "form", "json", "form1", "json1" } -> [ctx EXCEPT !.taken = TRUE]
    [] ins[1] = "resp"    -> [ctx EXCEPT !.resp = [st |-> ins[2], hdrs |-> ins[3], body |-> ins[4]]]
    [] ins[1] = "noresp"  -> [ctx EXCEPT !.resp = NoResp]
    [] ins[1] = "setstatus" -> IF ctx.resp = NoResp THEN ctx ELSE [ctx EXCEPT !.resp.st = ins[2]]
    [] ins[1] = "pushhdr" -> IF ctx.resp = NoResp THEN ctx ELSE [ctx EXCEPT !.resp.hdrs = Append(@, << ins[2], ins[3] >>)]
    [] ins[1] = "echo"    -> [ctx EXCEPT !.taken = TRUE, !.resp = [st |-> "200", hdrs |-> <<>>, body |-> "t:" \o EchoText(ctx)]]
    [] OTHER -> ctx

Silent == { "add", "apphdr", "clearhdrs", "sethdr", "delhdr", "resp", "noresp", "setstatus", "pushhdr", "echo", "sleep", "yield" }

---------------------------------------------------------------------------
(* env: [progs |-> function from name to program, rid |-> request id,       *)
(*       chain |-> middleware names outermost first, h |-> handler name,    *)
(*       names |-> parameter names a plain handler asks for]                *)
(* Result: [evs, how, ctx, err, ek]; how is "ok" (with ctx), "err" (with    *)
(* text err and kind ek) or "panic".                                        *)
Ok(evs, ctx) == [evs |-> evs, how |-> "ok", ctx |-> ctx, err |-> "", ek |-> ""]
Er(evs, ctx, k, t) == [evs |-> evs, how |-> "err", ctx |-> ctx, err |-> t, ek |-> k]
Pn(evs, ctx) == [evs |-> evs, how |-> "panic", ctx |-> ctx, err |-> "", ek |-> ""]
ErrText(k, t) == "err:" \o k \o ":t:" \o t
ResText(r) == IF r.how = "ok" THEN "ok" ELSE ErrText(r.ek, r.err)

HasProg(env, who) == who \in DOMAIN env.progs

(* What a handler without program answers.                                  *)
PlainAnswer(h) == [st |-> "200", hdrs |-> << << "content-type", "text/plain; charset=utf-8" >> >>, body |-> "t:h:" \o h]

RECURSIVE From(_, _, _)
RECURSIVE RunProg(_, _, _, _, _, _)

(* Entering the i-th middleware, or the handler after the last.             *)
From(env, i, ctx) ==
  IF i <= Len(env.chain)
  THEN LET who  == env.chain[i]
           r    == IF HasProg(env, who) THEN RunProg(env, i, who, 1, ctx, <<>>) ELSE From(env, i + 1, ctx)
           evs  == << Ev("enter", who, "", "") >> \o r.evs
       IN  IF r.how = "panic" THEN [r EXCEPT !.evs = evs]
           ELSE [r EXCEPT !.evs = Append(evs, Ev("leave", who, "", ResText(r)))]
  ELSE IF HasProg(env, env.h)
  THEN LET r == RunProg(env, i, env.h, 1, ctx, <<>>)
           evs == << Ev("handler", env.h, "", "") >> \o r.evs
       IN  IF r.how = "panic" THEN [r EXCEPT !.evs = evs]
           ELSE [r EXCEPT !.evs = Append(evs, Ev("done", env.h, "", ResText(r)))]
  ELSE Ok(<< Ev("handler", env.h, "", "") >>, [ctx EXCEPT !.resp = PlainAnswer(env.h)])

RunProg(env, i, who, k, ctx, evs) ==
  LET prog == env.progs[who] IN
  IF k > Len(prog) THEN Ok(evs, ctx)
  ELSE LET ins == prog[k] IN
  CASE ins[1] \in Looks  -> RunProg(env, i, who, k + 1, Effect(ins, ctx), Append(evs, Ev("obs", who, ins[1], Look(ins, ctx))))
    [] ins[1] \in Silent -> RunProg(env, i, who, k + 1, Effect(ins, ctx), evs)
    [] ins[1] = "gate"   -> RunProg(env, i, who, k + 1, ctx, evs \o << Ev("gate", who, ins[2], ""), Ev("resumed", who, ins[2], "") >>)
    [] ins[1] = "panic"  -> Pn(Append(evs, Ev("panic", who, "", "")), ctx)
    [] ins[1] = "panicif" -> IF HdrsOf(ctx, ins[2]) = <<>> THEN RunProg(env, i, who, k + 1, ctx, evs)
                             ELSE Pn(Append(evs, Ev("panic", who, "", "")), ctx)
    [] ins[1] = "err"    -> Er(evs, ctx, "general", ins[2])
    [] ins[1] = "errkind" -> Er(evs, ctx, ins[2], ins[3])
    [] ins[1] = "errif"  -> IF HdrsOf(ctx, ins[2]) = <<>> THEN RunProg(env, i, who, k + 1, ctx, evs) ELSE Er(evs, ctx, "general", ins[3])
    [] ins[1] = "next"   ->
         LET r == From(env, i + 1, ctx)
             e2 == evs \o r.evs
             back == Append(e2, Ev("back", who, "", ResText(r)))
         IN  CASE r.how = "panic" -> Pn(e2, ctx)
               [] r.how = "ok"    -> RunProg(env, i, who, k + 1, r.ctx, back)
               [] ins[2] = "pass" -> Er(back, ctx, r.ek, r.err)
               [] ins[2] = "wrap" -> Er(back, ctx, "general", who \o "[" \o r.err \o "]")
               [] ins[2] = "recover" -> RunProg(env, i, who, k + 1, FreshCtx(env.rid), back)

Serve(env, ctx) == From(env, 1, ctx)

---------------------------------------------------------------------------
(* The answer a finished processing gives.                                  *)
(* A header value with a control character other than tab cannot be sent.   *)
(* (TLA+ can only write these; the generators use no others.)               *)
Sendable(v) == \A k \in 1..Len(v) : SubSeq(v, k, k) \notin { "\n", "\r", "\f" }

LastPerName(hs) ==
  { << hs[k][1], hs[k][2] >> : k \in { j \in 1..Len(hs) : \A q \in (j + 1)..Len(hs) : hs[q][1] # hs[j][1] } }

(* kind "any": whatever comes is acceptable (a panicked request)            *)
AnswerOf(r) ==
  CASE r.how = "panic" -> [kind |-> "any", st |-> "", hdrs |-> {}, body |-> ""]
    [] r.how = "err"   -> [kind |-> "whole", st |-> "500", hdrs |-> {}, body |-> "t:" \o r.err]
    [] r.ctx.resp = NoResp -> [kind |-> "whole", st |-> "200", hdrs |-> {}, body |-> "t:"]
    [] \E k \in 1..Len(r.ctx.resp.hdrs) : ~Sendable(r.ctx.resp.hdrs[k][2]) ->
         [kind |-> "status", st |-> "500", hdrs |-> {}, body |-> ""]
    [] OTHER -> [kind |-> "whole", st |-> r.ctx.resp.st, hdrs |-> LastPerName(r.ctx.resp.hdrs), body |-> r.ctx.resp.body]
NotFoundAnswer == [kind |-> "status", st |-> "404", hdrs |-> {}, body |-> ""]

(* What HTTP itself may add.                                                *)
Framing == { "content-length", "date", "transfer-encoding", "connection" }
SameAnswer(a, l) ==
  \/ a.kind = "any"
  \/ a.kind = "status" /\ l.status = a.st
  \/ /\ a.kind = "whole" /\ l.status = a.st /\ l.body = a.body
     /\ LET own == SelectSeq(l.headers, LAMBDA h : h[1] \notin Framing)
        IN  /\ { << own[k][1], own[k][2] >> : k \in 1..Len(own) } = a.hdrs
            /\ Len(own) = Cardinality(a.hdrs)
=============================================================================
