---------------------------- MODULE StaticFiles ----------------------------
(* Serving files below a directory. The file system is                      *)
(*   files : function from path (sequence of names) to what the file holds  *)
(*   dirs  : set of paths that are directories                              *)
(* A static route serves directory D (a path); a request names a relative   *)
(* path rel below it, as segments.                                          *)
EXTENDS Naturals, Sequences, FiniteSets

(* What the operating system finds walking from directory at.               *)
Missing == [k |-> "none", p |-> <<>>]
RECURSIVE Walk(_, _, _, _)
Walk(files, dirs, at, segs) ==
  IF segs = <<>> THEN [k |-> "dir", p |-> at]
  ELSE LET s == Head(segs)
           to == IF s = ".." THEN (IF at = <<>> THEN <<>> ELSE SubSeq(at, 1, Len(at) - 1))
                 ELSE IF s = "." THEN at ELSE Append(at, s)
       IN  IF to \in DOMAIN files THEN (IF Len(segs) = 1 THEN [k |-> "file", p |-> to] ELSE Missing)
           ELSE IF to \in dirs THEN Walk(files, dirs, to, Tail(segs))
           ELSE Missing

Inside(D, p) == Len(p) > Len(D) /\ SubSeq(p, 1, Len(D)) = D
Plain(segs) == \A k \in 1..Len(segs) : segs[k] \notin { ".", ".." }

(* The design: a path with ".." is refused; otherwise the file found there. *)
No == [st |-> "404", what |-> ""]
Serve(files, dirs, D, rel) ==
  IF \E k \in 1..Len(rel) : rel[k] = ".." THEN No
  ELSE LET w == Walk(files, dirs, D, rel)
       IN  IF w.k = "file" THEN [st |-> "200", what |-> files[w.p]] ELSE No

(* F01: success only with what a file inside D holds.                       *)
Within(files, D) == { files[p] : p \in { q \in DOMAIN files : Inside(D, q) } }
Contained(files, D, ans) == ans.st = "2xx" => ans.what \in Within(files, D)

(* F02: exactly the file named, for plain paths.                            *)
Exact(files, D, rel, ans) ==
  IF (D \o rel) \in DOMAIN files /\ rel # <<>> THEN ans.st = "200" /\ ans.what = files[D \o rel] ELSE ans.st = "404"

(* Changes.                                                                 *)
Parents(p) == { SubSeq(p, 1, k) : k \in 0..(Len(p) - 1) }
Put(files, p, c) == [ q \in DOMAIN files \cup { p } |-> IF q = p THEN c ELSE files[q] ]
Del(files, p) == [ q \in DOMAIN files \ { p } |-> files[q] ]
=============================================================================
