----------------------------- MODULE MCContext -----------------------------
(* All short programs over a few instructions, spread over one middleware   *)
(* (before and after it passes the request on) and the handler inside it;   *)
(* each is served once, and what Chain says about it is checked against     *)
(* independent statements of the properties. With Emit every program is     *)
(* printed, to be run on the real server.                                   *)
EXTENDS Chain, Json, IOUtils

CONSTANTS L, Emit
Mode == IOEnv.PROP

Bodies == IF Mode = "B02" THEN << << 97, 61, 49 >>, << 97, 61, 120 >>, << 91, 93 >>, << >> >> ELSE << << >> >>
BSums  == IF Mode = "B02" THEN << "t:a=1", "t:a=x", "t:[]", "t:" >> ELSE << "t:" >>
(* what the middleware does with an inner error                             *)
Policies == IF Mode \in { "P01", "P03" } THEN { "pass", "wrap", "recover" } ELSE { "wrap" }
State0 == IF Mode \in { "P05", "B02" } THEN "=cfg" ELSE Nothing

Alphabet ==
  CASE Mode = "P07" -> << << "get", "A" >>, << "get", "B" >>, << "add", "A", "1" >>, << "add", "A", "2" >>, << "add", "B", "1" >>,
                          << "mut", "A", "3" >>, << "put", "A", "4" >>, << "drop", "A" >>,
                          << "sethdr", "x-a", "9" >>, << "apphdr", "x-a", "8" >>, << "delhdr", "x-a" >>, << "hdrall", "x-a" >> >>
    [] Mode = "B02" -> << << "take" >>, << "form" >>, << "json" >>, << "qp" >>, << "hdr", "x-a" >>, << "hdr", "content-length" >>, << "form1" >>, << "json1" >>, << "get", "S" >>, << "err", "e" >> >>
    [] Mode = "P02" -> << << "resp", "201", << << "x-a", "1" >>, << "x-b", "0" >>, << "x-a", "2" >> >>, "t:one" >>,
                          << "resp", "404", << >>, "t:" >>, << "setstatus", "500" >>, << "pushhdr", "x-a", "3" >>,
                          << "pushhdr", "x-c", "4" >>, << "noresp" >>, << "clearhdrs" >>, << "pushhdr", "x-a", "a\nb" >> >>
    [] Mode = "P01" -> << << "resp", "201", << << "x-a", "1" >> >>, "t:one" >>, << "noresp" >>, << "errkind", "param", "e" >>,
                          << "seen" >>, << "add", "A", "1" >>, << "get", "A" >>, << "stop" >> >>
    [] Mode = "P03" -> << << "resp", "201", << << "x-a", "1" >> >>, "t:one" >>, << "err", "e" >>, << "panic" >>, << "pushhdr", "x-a", "a\nb" >>,
                          << "stop" >> >>
    [] Mode = "P05" -> << << "get", "S" >>, << "add", "S", "1" >>, << "mut", "S", "2" >>, << "drop", "S" >>, << "get", "A" >>, << "add", "A", "3" >>, << "err", "e" >> >>
    [] OTHER        -> << << "resp", "201", << << "x-a", "1" >> >>, "t:one" >>, << "noresp" >>, << "err", "e" >>, << "seen" >>,
                          << "get", "A" >>, << "add", "A", "1" >>, << "stop" >> >>

VARIABLES pre, inner, post, body, pol
vars == << pre, inner, post, body, pol >>
Init == pre = <<>> /\ inner = <<>> /\ post = <<>> /\ body \in 1..Len(Bodies) /\ pol \in Policies
Len3 == Len(pre) + Len(inner) + Len(post)
Next == /\ Len3 < L /\ UNCHANGED << body, pol >>
        /\ \E k \in 1..Len(Alphabet) :
             \/ pre'   = Append(pre, Alphabet[k])   /\ UNCHANGED << inner, post >>
             \/ inner' = Append(inner, Alphabet[k]) /\ UNCHANGED << pre, post >>
             \/ post'  = Append(post, Alphabet[k])  /\ UNCHANGED << pre, inner >>
Spec == Init /\ [][Next]_vars

(* "stop" in front of "next" leaves it out; elsewhere it means nothing.     *)
Stops == \E k \in 1..Len(pre) : pre[k][1] = "stop"
NoStop(p) == SelectSeq(p, LAMBDA x : x[1] # "stop")
Outer == NoStop(pre) \o (IF Stops THEN <<>> ELSE << << "next", pol >> >>) \o NoStop(post)
Progs == [ m |-> Outer, h |-> NoStop(inner) ]
Env(chain) == [progs |-> Progs, rid |-> "r", chain |-> chain, h |-> "h"]
Ctx == StartCtx([hdrs |-> << << "x-rid", "r" >>, << "x-a", "0" >>, << "x-a", "1" >>,
                          << "content-length", ToString(Len(Bodies[body])) >> >>, m |-> "POST", path |-> "/p", query |-> "=q=1",
                 q |-> << 113, 61, 49 >>, b |-> Bodies[body], bsum |-> BSums[body]], <<>>, State0)
R == Serve(Env(<< "m" >>), Ctx)

(* The instructions in the order they run, as long as nothing fails.        *)
FirstErr(p) == { k \in 1..Len(p) : p[k][1] \in { "err", "errkind", "panic" } }
Cut(p) == IF FirstErr(p) = {} THEN p ELSE SubSeq(p, 1, (CHOOSE k \in FirstErr(p) : \A j \in FirstErr(p) : k <= j) - 1)
Failed(p) == FirstErr(p) # {}
Ran == IF Failed(NoStop(pre)) THEN Cut(NoStop(pre))
       ELSE IF Stops THEN NoStop(pre) \o Cut(NoStop(post))
       ELSE IF Failed(NoStop(inner)) THEN NoStop(pre) \o Cut(NoStop(inner))
       ELSE NoStop(pre) \o NoStop(inner) \o Cut(NoStop(post))
Obs(r) == SelectSeq(r.evs, LAMBDA e : e.e = "obs")
IsLook(x) == x[1] \in Looks
LookAt == SelectSeq([ k \in 1..Len(Ran) |-> k ], LAMBDA k : IsLook(Ran[k]))   \* positions of what looks
Last(S) == CHOOSE k \in S : \A j \in S : j <= k

(* P07: the value read is the one last attached or changed.                 *)
Initially(t) == IF t = "S" THEN State0 ELSE Nothing
Sets(j, t)  == Ran[j][1] \in { "add", "put" } /\ Ran[j][2] = t
Drops(j, t) == Ran[j][1] = "drop" /\ Ran[j][2] = t
(* is there a value before the k-th?                                        *)
There(k, t) ==
  LET W == { j \in 1..(k - 1) : Sets(j, t) \/ Drops(j, t) }
  IN  IF W = {} THEN Initially(t) # Nothing ELSE Sets(Last(W), t)
LastWrite(k, t) == { j \in 1..(k - 1) : Sets(j, t) \/ (Ran[j][1] = "mut" /\ Ran[j][2] = t /\ There(j, t)) }
HdrWrites(k) == { j \in 1..(k - 1) : Ran[j][1] \in { "sethdr", "delhdr" } }
Appended(k, j) == { q \in (j + 1)..(k - 1) : Ran[q][1] = "apphdr" }
Reads == Mode \in { "P05", "P07" } =>
  /\ Len(Obs(R)) = Len(LookAt)
  /\ \A n \in 1..Len(LookAt) :
       LET k == LookAt[n]
           v == Obs(R)[n].v
           t == Ran[k][2]
       IN CASE Ran[k][1] \in { "get", "put", "drop" } ->
                 v = IF ~There(k, t) THEN Nothing ELSE IF LastWrite(k, t) = {} THEN Initially(t) ELSE "=" \o Ran[Last(LastWrite(k, t))][3]
            [] Ran[k][1] = "mut" -> v = IF There(k, t) THEN "yes" ELSE "no"
            [] Ran[k][1] = "hdrall" ->
                 LET w    == IF HdrWrites(k) = {} THEN 0 ELSE Last(HdrWrites(k))
                     head == IF w = 0 THEN << "t:0", "t:1" >> ELSE IF Ran[w][1] = "sethdr" THEN << "t:9" >> ELSE <<>>
                 IN  v = JoinText(head \o [ q \in 1..Cardinality(Appended(k, w)) |-> "t:8" ], "|")

(* B02: the first reading has it all, later ones nothing, the rest is as it *)
(* was.                                                                     *)
Takes(k) == Ran[k][1] \in { "take", "form", "json", "form1", "json1" }
Whole(ins) == CASE ins = "take" -> BSums[body]
                [] ins = "form" -> DecodeForm(MapListShape, Bodies[body])
                [] ins = "json" -> DecodeJson([t |-> "any"], Bodies[body])
                [] ins = "form1" -> (IF body = 1 THEN "{61=n:1}" ELSE IF body = 2 THEN "err" ELSE "{}")
                [] ins = "json1" -> "err"
Empty(ins) == CASE ins = "take" -> "t:" [] ins = "form" -> DecodeForm(MapListShape, <<>>) [] ins \in { "json", "json1" } -> "err" [] ins = "form1" -> "{}"
ReadOnce == Mode = "B02" =>
  /\ Len(Obs(R)) = Len(LookAt)
  /\ \A n \in 1..Len(LookAt) :
       LET k == LookAt[n]
           v == Obs(R)[n].v
       IN IF Takes(k) THEN v = IF \E j \in 1..(k - 1) : Takes(j) THEN Empty(Ran[k][1]) ELSE Whole(Ran[k][1])
          ELSE CASE Ran[k][1] = "qp" -> v = DecodeForm(MapListShape, << 113, 61, 49 >>)
                 [] Ran[k][1] = "hdr" -> v = IF Ran[k][2] = "x-a" THEN "=t:0" ELSE "=t:" \o ToString(Len(Bodies[body]))
                 [] Ran[k][1] = "query" -> v = "=t:q=1"
                 [] Ran[k][1] = "get" -> v = State0

(* P02: the answer's status, body and headers are those set last.           *)
Base(n) == { j \in 1..n : Ran[j][1] \in { "resp", "noresp" } }
HasResp(n) == Base(n) # {} /\ Ran[Last(Base(n))][1] = "resp"
From0 == Last(Base(Len(Ran)))
Clears == { j \in (From0 + 1)..Len(Ran) : Ran[j][1] = "clearhdrs" }
Pairs0 == LET more == SelectSeq(SubSeq(Ran, (IF Clears = {} THEN From0 ELSE Last(Clears)) + 1, Len(Ran)), LAMBDA x : x[1] = "pushhdr")
          IN (IF Clears = {} THEN Ran[From0][3] ELSE <<>>) \o [ k \in 1..Len(more) |-> << more[k][2], more[k][3] >> ]
Sts == { j \in (From0 + 1)..Len(Ran) : Ran[j][1] = "setstatus" }
Answers == Mode = "P02" =>
  LET a == AnswerOf(R) IN
  IF ~HasResp(Len(Ran)) THEN a.st = "200" /\ a.hdrs = {} /\ a.body = "t:"
  ELSE LET bad == \E k \in 1..Len(Pairs0) : Pairs0[k][2] = "a\nb"
       IN IF bad THEN a.kind = "status" /\ a.st = "500"
          ELSE /\ a.st = (IF Sts = {} THEN Ran[From0][2] ELSE Ran[Last(Sts)][2])
               /\ a.body = Ran[From0][4]
               /\ { h[1] : h \in a.hdrs } = { Pairs0[k][1] : k \in 1..Len(Pairs0) }
               /\ \A h \in a.hdrs : h[2] = Pairs0[Last({ k \in 1..Len(Pairs0) : Pairs0[k][1] = h[1] })][2]
               /\ \A g, h \in a.hdrs : g[1] = h[1] => g = h

(* P04: a middleware that only passes on changes nothing, wherever it is.   *)
(* P01, P03: the middleware is entered once, goes inside at most once and   *)
(* sees how that ended before it ends itself; an error ends a program, and  *)
(* what the middleware makes of an inner one is up to it alone.             *)
ErrOf(p) == LET x == p[Len(Cut(p)) + 1] IN IF x[1] = "err" THEN ErrText("general", x[2]) ELSE ErrText(x[2], x[3])
Dies(p) == Failed(p) /\ p[Len(Cut(p)) + 1][1] = "panic"
Out(p) == IF Failed(p) THEN ErrOf(p) ELSE "ok"
P1 == NoStop(pre)
P2 == NoStop(inner)
P3 == NoStop(post)
Wrapped == "err:general:t:m[" \o P2[Len(Cut(P2)) + 1][Len(P2[Len(Cut(P2)) + 1])] \o "]"
InnerEvs == << Ev("handler", "h", "", "") >> \o (IF Dies(P2) THEN << Ev("panic", "h", "", "") >>
            ELSE << Ev("done", "h", "", Out(P2)), Ev("back", "m", "", Out(P2)) >>)
PostEvs == IF Dies(P3) THEN << Ev("panic", "m", "", "") >> ELSE << Ev("leave", "m", "", Out(P3)) >>
Course == << Ev("enter", "m", "", "") >> \o
  (IF Dies(P1) THEN << Ev("panic", "m", "", "") >>
   ELSE IF Failed(P1) THEN << Ev("leave", "m", "", Out(P1)) >>
   ELSE IF Stops THEN PostEvs
   ELSE InnerEvs \o
     (IF Dies(P2) THEN <<>>
      ELSE IF ~Failed(P2) \/ pol = "recover" THEN PostEvs
      ELSE << Ev("leave", "m", "", IF pol = "pass" THEN Out(P2) ELSE Wrapped) >>))
Onion1 == Mode \in { "P01", "P03" } => SelectSeq(R.evs, LAMBDA e : e.e # "obs") = Course

Without(evs, who) == SelectSeq(evs, LAMBDA e : e.who # who)
Transparent == Mode = "P04" =>
  \A chain \in { << "n", "m" >>, << "m", "n" >> } :
    LET q == Serve(Env(chain), Ctx)
    IN  Without(q.evs, "n") = R.evs /\ q.how = R.how /\ q.err = R.err /\ AnswerOf(q) = AnswerOf(R)

EmitAll == Emit => PrintT(<< "GEN", ToJson([m |-> Outer, h |-> NoStop(inner), body |-> BSums[body]]) >>)
=============================================================================
