----------------------------- MODULE MCResponse -----------------------------
(* All short programs of building operations, as a transition system over   *)
(* the response they build; what module ResponseOps makes of them is        *)
(* checked against statements about the operations alone. With Emit every   *)
(* program is printed, to be run on the real code.                          *)
EXTENDS ResponseOps, Json

CONSTANTS L, Emit, Wide

Files == [ p \in { "f.txt" } |-> "t:file" ]
T(s) == [k |-> "text", s |-> s]
Num(d) == V("int", d, <<>>, <<>>)
Good == V("arr", <<>>, << Num(<< 49 >>), V("str", << 120 >>, <<>>, <<>>) >>, <<>>)
BadV == V("arr", <<>>, << Num(<< 49 >>), V("fail", <<>>, <<>>, <<>>) >>, <<>>)
Hs == << << "x-a", "3" >>, << "x-b", "4" >>, << "x-a", "5" >> >>

StartOps ==
  { << "new", T("t:one") >>, << "created" >>, << "respond", T("t:two") >>, << "pair", "202", T("t:p") >>, << "none" >>,
    << "rheaders", T("t:r"), Hs >>, << "ctx_json", Good >>, << "ctx_respond", T("t:c") >> }
  \cup (IF Wide THEN { << "new", [k |-> "bytes", n |-> << 0, 200 >>] >>, << "ok" >>, << "ise" >>, << "respond", Unit >>, << "status", "404" >>,
    << "respond", [k |-> "bytes", n |-> << 7 >>] >>, << "some", T("t:s") >>, << "rstatus", T("t:r"), "203" >>,
    << "rheader", T("t:r"), "x-a", "1" >>, << "rheaders_str", T("t:r"), Hs >>, << "ctx_json", BadV >>, << "ctx_file", "f.txt" >>,
    << "ctx_file", "none.txt" >>, << "ctx_status", "204" >>, << "ctx_pair", "205", Unit >>, << "ctx_some", T("t:cs") >>, << "ctx_none" >> }
    ELSE {})
RespOps ==
  { << "set_status", "201" >>, << "status_mut", "400" >>, << "set_body", T("t:body") >>, << "set_header", "x-a", "1" >>,
    << "set_header_str", "x-b", "2" >>, << "set_content_type", "text/css" >>, << "set_headers", Hs >>, << "html", T("t:html") >>,
    << "json", Good >>, << "json", BadV >>, << "file", "f.txt" >>, << "ctx" >> }
  \cup (IF Wide THEN { << "with_status", "206" >>, << "set_body", Unit >>, << "with_header", "x-c", "7" >>, << "with_header_str", CT, "a/b" >>,
    << "with_headers", << << CT, "c/d" >> >> >>, << "set_headers_str", << << "x-b", "8" >> >> >>, << "with_headers_str", << >> >>,
    << "push_header", "x-a", "9" >>, << "file", "none.txt" >>, << "respond_again" >> } ELSE {})
BuildOps ==
  { << "with_status", "299" >>, << "with_header", "x-a", "b1" >>, << "with_header_str", "x-b", "b2" >>, << "with_headers", Hs >>,
    << "with_headers_str", << << CT, "x/y" >>, << "x-a", "z" >> >> >> }

VARIABLES prog, r
vars == << prog, r >>
Init == \E op \in StartOps : prog = << op >> /\ r = First(op, Files)
InContext == \E k \in 1..Len(prog) : prog[k][1] \in OfContext
Next == /\ Len(prog) < L
        /\ \E op \in (IF InContext THEN BuildOps ELSE RespOps) : prog' = Append(prog, op) /\ r' = Then(r, op, Files)
Spec == Init /\ [][Next]_vars

(* S01, from the operations alone.                                          *)
Last(S) == CHOOSE k \in S : \A j \in S : j <= k
SetsStatus(k) == k = 1 \/ prog[k][1] \in { "set_status", "with_status", "status_mut" } \/ prog[k] = << "json", BadV >> \/ prog[k] = << "file", "none.txt" >>
SetsBody(k) == k = 1 \/ prog[k][1] \in { "set_body", "html", "json", "file" }
Ix == 1..Len(prog)
StatusLast == LET k == Last({ j \in Ix : SetsStatus(j) }) IN
  IF k = 1 THEN r.st = First(prog[1], Files).st
  ELSE IF prog[k][1] = "json" THEN r.st = "500" ELSE IF prog[k][1] = "file" THEN r.st = "404" ELSE r.st = prog[k][2]
BodyLast == LET k == Last({ j \in Ix : SetsBody(j) }) IN
  IF k = 1 THEN r.body = First(prog[1], Files).body ELSE r.body = Then(Plain("200", Unit), prog[k], Files).body
(* A step only adds headers; those of other names stay as they are.         *)
Added(op) == LET x == Then(Plain("200", Unit), op, Files) IN NamesOf(x.hdrs)
ValueOf(hs, n) == IF n \in NamesOf(hs) THEN hs[LastAt(hs, n)][2] ELSE Open
Accumulate == [][ LET op == prog'[Len(prog')] IN
    /\ \A n \in NamesOf(r.hdrs) : n \in NamesOf(r'.hdrs)
    /\ \A n \in NamesOf(r'.hdrs) : n \notin Added(op) => ValueOf(r'.hdrs, n) = ValueOf(r.hdrs, n)
    /\ op[1] \in { "set_header", "with_header", "set_header_str", "with_header_str", "push_header" } => ValueOf(r'.hdrs, op[2]) = Is(op[3])
    /\ op[1] = "html" => ValueOf(r'.hdrs, CT) = Media("text/html")
    /\ op = << "json", Good >> => ValueOf(r'.hdrs, CT) = Media("application/json") ]_vars
Folds == r = Built(prog, Files)

EmitAll == Emit => PrintT(<< "GEN", ToJson([prog |-> prog]) >>)
=============================================================================
