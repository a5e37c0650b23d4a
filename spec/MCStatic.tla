------------------------------ MODULE MCStatic ------------------------------
(* A small directory tree that changes while requests come in, of every     *)
(* shape up to three segments; the design of module StaticFiles keeps to    *)
(* the directory and returns exactly the file. The histories of changes are *)
(* printed, to be replayed on the real server with all these requests.      *)
EXTENDS StaticFiles, TLC, Json

CONSTANTS N

D == << "pub" >>
Places == { << "pub", "f" >>, << "pub", "d", "f" >>, << "f" >>, << "pubx", "f" >>, << "pub", "d", "pub" >> }
Segs == { "f", "d", "pub", "..", ".", "x" }
Rels == { << a >> : a \in Segs } \cup { << a, b >> : a, b \in Segs } \cup { << a, b, c >> : a, b, c \in Segs }

VARIABLES files, dirs, hist, n
vars == << files, dirs, hist, n >>
Init == files = <<>> /\ dirs = { <<>>, << "pub" >>, << "pub", "d" >>, << "pubx" >> } /\ hist = <<>> /\ n = 0
Content(p) == "v" \o ToString(n)
Next ==
  /\ n < N /\ n' = n + 1 /\ UNCHANGED dirs
  /\ \E p \in Places :
       \/ files' = Put(files, p, Content(p)) /\ hist' = Append(hist, << "write", p, Content(p) >>)
       \/ p \in DOMAIN files /\ files' = Del(files, p) /\ hist' = Append(hist, << "remove", p, "" >>)
Spec == Init /\ [][Next]_vars

Ans(rel) == Serve(files, dirs, D, rel)
Seen(a) == [a EXCEPT !.st = IF @ = "200" THEN "2xx" ELSE @]
KeepsInside == \A rel \in Rels : Contained(files, D, Seen(Ans(rel)))
IsExact == \A rel \in Rels : Plain(rel) => Exact(files, D, rel, Ans(rel))
(* without the rule about "..", this would fail: the walk does leave D      *)
WalkLeaves == \A rel \in Rels : LET w == Walk(files, dirs, D, rel) IN w.k = "file" => Inside(D, w.p)

EmitAll == n = N => PrintT(<< "GEN", ToJson([hist |-> hist, rels |-> Rels]) >>)
=============================================================================
