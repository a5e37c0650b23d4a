------------------------------ MODULE MCServer ------------------------------
(* Module Server with a small application: two middleware around a handler  *)
(* per kind of request, application state that everybody changes in its own *)
(* copy, and every assignment of kinds and connections to a few requests.   *)
(* With Emit, prints every complete history of what a client does and       *)
(* waits for.                                                               *)
EXTENDS Server, Json

CONSTANTS N, Kinds, Emit

VARIABLE hist
vars == << svars, hist >>

RNames == << "r1", "r2", "r3", "r4" >>
Progs ==
  [ m1    |-> << << "get", "S" >>, << "mut", "S", "m1" >>, << "next", "wrap" >>, << "seen" >>, << "get", "A" >> >>,
    ok    |-> << << "get", "S" >>, << "mut", "S", "h" >>, << "add", "A", "mine" >>, << "gate", "g" >>, << "get", "S" >>, << "echo" >> >>,
    two   |-> << << "gate", "g" >>, << "hdr", "x-tag" >>, << "gate", "k" >>, << "take" >>, << "echo" >> >>,
    err   |-> << << "gate", "g" >>, << "err", "no" >> >>,
    panic |-> << << "gate", "g" >>, << "panic" >> >>,
    fast  |-> << << "get", "S" >>, << "echo" >> >>,
    early |-> << << "get", "A" >> >> ]     \* no program under this name: see below
ProgNames == { "m1", "ok", "two", "err", "panic", "fast" }

Rq(r, kind) == [hdrs |-> << << "host", "localhost" >>, << "x-rid", r >>, << "x-tag", "tag-" \o r >> >>,
                m |-> "GET", path |-> "/" \o kind, query |-> "=n=" \o r, q |-> <<>>, b |-> <<>>, bsum |-> "t:"]

Layouts == { f \in [ 1..N -> Conns ] : TRUE }
Init ==
  \E kinds \in [ 1..N -> Kinds ], lay \in Layouts :
    /\ order = SubSeq(RNames, 1, N)
    /\ LET R == { RNames[k] : k \in 1..N }
           Ix(r) == CHOOSE k \in 1..N : RNames[k] = r
       IN /\ env = [ r \in R |-> [progs |-> [ p \in ProgNames |-> Progs[p] ], rid |-> r, chain |-> << "m1", "m2" >>, h |-> kinds[Ix(r)]] ]
          /\ start = [ r \in R |-> StartCtx(Rq(r, kinds[Ix(r)]), <<>>, "=cfg") ]
          /\ conn = [ r \in R |-> lay[Ix(r)] ]
          /\ opened = [ r \in R |-> {} ]
    /\ sent = {} /\ queue = [ c \in Conns |-> <<>> ] /\ cur = [ c \in Conns |-> "-" ]
    /\ alive = [ c \in Conns |-> TRUE ] /\ runs = <<>> /\ out = [ c \in Conns |-> <<>> ]
    /\ state = "=cfg" /\ hist = <<>>

Note(x) == hist' = IF Emit THEN Append(hist, x) ELSE hist
NoNote == UNCHANGED hist

Next ==
  \/ \E r \in Reqs : Send(r) /\ Note(<< "send", r, "" >>)
  \/ \E r \in Reqs : OpenGate(r) /\ Note(<< "go", r, runs[r].wait >>)
  \/ \E c \in Conns : Begin(c) /\ NoNote
  \/ \E c \in Conns : Finish(c) /\ (IF runs[cur[c]].st = "panic" THEN Note(<< "lost", cur[c], "" >>) ELSE Note(<< "recv", cur[c], "" >>))
  \/ \E r \in Reqs : Step(r) /\ (IF runs'[r].wait # "" /\ runs[r].wait = "" THEN Note(<< "gate", r, runs'[r].wait >>) ELSE NoNote)

Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
EmitAll ==
  (Emit /\ Rest) => PrintT(<< "GEN", ToJson([kinds |-> [ r \in Reqs |-> env[r].h ], conn |-> conn, acts |-> hist]) >>)
=============================================================================
