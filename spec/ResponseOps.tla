---------------------------- MODULE ResponseOps ----------------------------
(* Building a response step by step. A program is a sequence of operations, *)
(* the first of which makes a response out of some value; "ctx" answers     *)
(* from a context with the response made so far. An operation is a tuple    *)
(* << name, arguments >>. Bodies and return values are records              *)
(*   [k |-> "text", s |-> summary]  [k |-> "unit"]  [k |-> "bytes", n |-> bytes] *)
(* and serializable values are those of JsonText, or contain one of kind    *)
(* "fail" (whose serialization reports an error).                           *)
(*                                                                          *)
(* What is known about a response is a record                               *)
(*   st    status        body [k, v]: summary, JSON value, or left open     *)
(*   hdrs  << name, [how, v] >> in the order set; the last counts           *)
(*   free  headers beyond these are left open                               *)
EXTENDS JsonText, TLC

Is(v)    == [how |-> "is", v |-> v]          \* this very value
Media(v) == [how |-> "media", v |-> v]       \* this media type, maybe with parameters
Utf8Text == [how |-> "utf8", v |-> ""]       \* text/plain in UTF-8
Open     == [how |-> "open", v |-> ""]       \* left open
CT == "content-type"

SumBody(x)  == [k |-> "sum", v |-> x]
JsonBody(v) == [k |-> "json", v |-> Canon(v)]
AnyBody     == [k |-> "any", v |-> ""]

Digits(n) == IF n < 10 THEN << 48 + n >>
             ELSE IF n < 100 THEN << 48 + (n \div 10), 48 + (n % 10) >>
             ELSE << 48 + (n \div 100), 48 + ((n \div 10) % 10), 48 + (n % 10) >>
ByteArray(bs) == V("arr", <<>>, [ k \in 1..Len(bs) |-> V("int", Digits(bs[k]), <<>>, <<>>) ], <<>>)
BodyOf(b) == CASE b.k = "text"  -> SumBody(b.s)
               [] b.k = "unit"  -> SumBody("t:")
               [] b.k = "bytes" -> JsonBody(ByteArray(b.n))

RECURSIVE Fails(_)
Fails(v) == v.k = "fail" \/ \E k \in 1..Len(v.xs) : Fails(v.xs[k])

R(st, body, hdrs) == [st |-> st, body |-> body, hdrs |-> hdrs, free |-> FALSE]
Plain(st, b) == R(st, BodyOf(b), <<>>)

AddHdr(r, n, h) == [r EXCEPT !.hdrs = Append(@, << n, h >>)]
AddAll(r, ps) == [r EXCEPT !.hdrs = @ \o [ k \in 1..Len(ps) |-> << ps[k][1], Is(ps[k][2]) >> ]]

JsonStep(r, v) ==
  IF Fails(v) THEN AddHdr([r EXCEPT !.st = "500", !.body = AnyBody], CT, Open)
  ELSE AddHdr([r EXCEPT !.body = JsonBody(v)], CT, Media("application/json"))
(* files: function from path to summary of the content                      *)
FileStep(r, files, p) ==
  IF p \in DOMAIN files THEN [r EXCEPT !.body = SumBody(files[p])]
  ELSE [r EXCEPT !.st = "404", !.body = AnyBody]

(* What a value answers by itself.                                          *)
Answering(b) == IF b.k = "text" THEN AddHdr(Plain("200", b), CT, Utf8Text) ELSE Plain("200", b)

Unit == [k |-> "unit"]
First(op, files) ==
  CASE op[1] = "new"     -> Plain("200", op[2])
    [] op[1] = "ok"      -> Plain("200", Unit)
    [] op[1] = "created" -> Plain("201", Unit)
    [] op[1] = "ise"     -> Plain("500", Unit)
    [] op[1] \in { "respond", "ctx_respond" } -> Answering(op[2])
    [] op[1] \in { "status", "ctx_status" }   -> Plain(op[2], Unit)
    [] op[1] \in { "pair", "ctx_pair" }       -> Plain(op[2], op[3])
    [] op[1] \in { "some", "ctx_some" }       -> Answering(op[2])
    [] op[1] \in { "none", "ctx_none" }       -> [Plain("404", Unit) EXCEPT !.body = AnyBody, !.free = TRUE]
    [] op[1] = "rstatus" -> Plain(op[3], op[2])
    [] op[1] = "rheader" -> AddAll(Plain("200", op[2]), << << op[3], op[4] >> >>)
    [] op[1] \in { "rheaders", "rheaders_str" } -> AddAll(Plain("200", op[2]), op[3])
    [] op[1] = "ctx_json" -> JsonStep(Plain("200", Unit), op[2])
    [] op[1] = "ctx_file" -> FileStep(Plain("200", Unit), files, op[2])

Starts == { "new", "ok", "created", "ise", "respond", "status", "pair", "some", "none", "rstatus", "rheader", "rheaders", "rheaders_str",
            "ctx_respond", "ctx_status", "ctx_pair", "ctx_some", "ctx_none", "ctx_json", "ctx_file" }
OfContext == { "ctx_respond", "ctx_status", "ctx_pair", "ctx_some", "ctx_none", "ctx_json", "ctx_file", "ctx" }

Then(r, op, files) ==
  CASE op[1] \in { "set_status", "with_status", "status_mut" } -> [r EXCEPT !.st = op[2]]
    [] op[1] = "set_body" -> [r EXCEPT !.body = BodyOf(op[2])]
    [] op[1] \in { "set_header", "with_header", "set_header_str", "with_header_str", "push_header" } -> AddHdr(r, op[2], Is(op[3]))
    [] op[1] = "set_content_type" -> AddHdr(r, CT, Is(op[2]))
    [] op[1] \in { "set_headers", "with_headers", "set_headers_str", "with_headers_str" } -> AddAll(r, op[2])
    [] op[1] = "html" -> AddHdr([r EXCEPT !.body = BodyOf(op[2])], CT, Media("text/html"))
    [] op[1] = "json" -> JsonStep(r, op[2])
    [] op[1] = "file" -> FileStep(r, files, op[2])
    [] op[1] \in { "respond_again", "ctx" } -> r
(* What a response builder (after "ctx...") offers.                         *)
BuilderOps == { "with_status", "with_header", "with_header_str", "with_headers", "with_headers_str" }

RECURSIVE Go(_, _, _, _)
Go(r, prog, k, files) == IF k > Len(prog) THEN r ELSE Go(Then(r, prog[k], files), prog, k + 1, files)
Built(prog, files) == Go(First(prog[1], files), prog, 2, files)

---------------------------------------------------------------------------
(* Comparing with a response that was seen: [status, headers, sum, b].      *)
LastAt(hs, n) == CHOOSE k \in 1..Len(hs) : hs[k][1] = n /\ \A j \in (k + 1)..Len(hs) : hs[j][1] # n
NamesOf(hs) == { hs[k][1] : k \in 1..Len(hs) }
HeaderFits(w, hs, n) ==
  LET has == n \in NamesOf(hs)
      got == IF has THEN hs[LastAt(hs, n)][2] ELSE ""
  IN  CASE w.how = "is"    -> has /\ got = w.v
        [] w.how = "media" -> has /\ (got = w.v \/ (Len(got) > Len(w.v) /\ SubSeq(got, 1, Len(w.v) + 1) = w.v \o ";"))
        [] w.how = "utf8"  -> has /\ got \in { "text/plain; charset=utf-8", "text/plain;charset=utf-8", "text/plain; charset=UTF-8" }
        [] w.how = "open"  -> TRUE
BodyFits(w, x) ==
  CASE w.k = "sum"  -> x.sum = w.v
    [] w.k = "json" -> DecodeJson([t |-> "any"], x.b) = w.v
    [] w.k = "any"  -> TRUE
Fits(w, x) ==
  /\ x.status = w.st
  /\ BodyFits(w.body, x)
  /\ \A n \in NamesOf(w.hdrs) : HeaderFits(w.hdrs[LastAt(w.hdrs, n)][2], x.headers, n)
  /\ w.free \/ NamesOf(x.headers) \subseteq NamesOf(w.hdrs)
=============================================================================
