----------------------------- MODULE GenRouting -----------------------------
(* Enumerates complete registration histories over a small universe, one    *)
(* universe per property, to be replayed on the real router. Histories      *)
(* evolve the abstract table, so that refused registrations occur and stay  *)
(* without effect.                                                          *)
EXTENDS Routing, TLC, Json, IOUtils

Prop == IOEnv.PROP
Big  == IOEnv.VERIF_TIER = "thorough"

R(p)     == [op |-> "route", path |-> p, m |-> "GET"]
RM(p, m) == [op |-> "route", path |-> p, m |-> m]
M(p)     == [op |-> "mw", path |-> p]
Mnt(p, ops) == [op |-> "mount", path |-> p, ops |-> ops]

Ops ==
  CASE Prop = "R01" -> { R("/"), R("/a"), R("/ab"), R("/a/b"), R("/:x"), R("/*"), RM("/a", "POST"), M("/a"), M("/ab/c") }
    [] Prop = "R02" -> { R("/a"), R("/ab"), R("ab/c"), R("/a/b/c"), R("/a//bc/"), R("/abc"), M("/a"), M("/ab"), M("//a/b") }
    [] Prop = "R03" -> { R("/*"), R("/a/*"), R("/a/b"), R("/a/b/*"), R("/:x/c"), R("/ab/c"), R("/a/:y/d"), M("/a/b/c") }
    [] Prop = "R04" -> { R("/:x"), R("/:x/b"), R("/:x/:y"), R("/a/:y"), R("/a/:y/*"), R("/:x/:y/c"), R("/*"), Mnt("/:x", << R("/:z") >>),
                         Mnt("/a/:y", << R("/"), R("/:z/c") >>) }
    [] Prop = "R05" -> { R("/"), R("/a"), R("/ab"), R("/abc"), R("/b/c"), R("/a/:x"), R("/*"), M("/"), M("/a"), M("/ab") }
    [] Prop = "R06" -> { R("/a"), R("/ab"), R("/:x"), R("/a/b"), R("/a/*"), R("/*"), R("/a*"), R("/*/a"), M("/:x"), M("/a"), M("/:y/b"),
                         Mnt("/", << R("/c") >>), Mnt("/a", << R("/b") >>), Mnt("/*", << R("/b") >>), Mnt("/*", << R("/") >>), Mnt("/ab/c", <<>>) }
    [] Prop = "R07" -> { R("/"), R("/a"), R("/a/b"), R("/ab"), R("/a/*"), M("/"), M("/a"), M("/a/b"), M("/ab"), M("/a/*") }
    [] Prop = "R08" -> { R("/"), R("/a"), R("/ab"), M("/a"), M("/"), R("/a/b/c"),
                         Mnt("/", << R("/"), R("/b") >>), Mnt("/a", << R("/"), M("/"), R("/b") >>), Mnt("/ab", << R("/:y"), M("/:y") >>),
                         Mnt("/a/b", << Mnt("/c", << R("/") , R("/*") >>), R("/d") >>), Mnt("/:x", << R("/:y") >>), Mnt("/ac", << R("/*"), M("/*") >>) }

Requests ==
  CASE Prop = "R02" -> << "/a", "/ab", "/abc", "/ab/c", "/a/b", "/a/bc", "//a///bc", "/a/b/c/", "/A", "/%61" >>
    [] Prop = "R03" -> << "/", "/a", "/a/b", "/a/b/c", "/a/b/c/d", "/ab", "/ab/c", "/ab/d", "/z/c", "/a/x/d", "/a/x/e" >>
    [] Prop = "R04" -> << "/a", "/q", "/a/b", "/q/b", "/a/b/c", "/a/q/c", "/q/r/c", "/a/q/r", "/a/q/r/s" >>
    [] Prop = "R08" -> << "/", "/a", "/ab", "/b", "/a/b", "/a/b/c", "/a/b/d", "/ab/q", "/a/b/c/e", "/ac", "/ac/q" >>
    [] OTHER -> << "/", "/a", "/ab", "/a/b", "/ab/c", "/abc", "/b", "/b/c", "/a/b/c" >>

Names == << "x", "y", "z" >>
Methods == IF Prop = "R01" THEN << "GET", "POST" >> ELSE << "GET" >>
MaxOps == IF Prop \in {"R06", "R08"} THEN (IF Big THEN 3 ELSE 2) ELSE (IF Big THEN 4 ELSE 3)

RECURSIVE Apply(_, _)
RECURSIVE ApplyAll(_, _, _)
ApplyAll(t, ops, k) == IF k > Len(ops) THEN t ELSE ApplyAll(Apply(t, ops[k]), ops, k + 1)
Apply(t, op) ==
  LET pat == Segments(op.path) IN
  CASE op.op = "route" -> IF RouteOK(t, pat, op.m) THEN AddRoute(t, pat, op.m, "h") ELSE t
    [] op.op = "mw"    -> IF MwOK(t, pat) THEN AddMw(t, pat, "m") ELSE t
    [] op.op = "mount" -> LET s == ApplyAll(EmptyTable, op.ops, 1)
                          IN  IF MountOK(t, pat, s) THEN AddMount(t, pat, s) ELSE t

VARIABLES hist, tab
Init == hist = <<>> /\ tab = EmptyTable

(* R05 and the like do not need the same operation twice; R06 does.         *)
Fresh(op) == Prop \in {"R06", "R08", "R07"} \/ \A k \in 1..Len(hist) : hist[k] # op

Next == \E op \in Ops :
          /\ Len(hist) < MaxOps
          /\ Fresh(op)
          /\ (Prop \notin {"R06", "R08"} => Apply(tab, op) # tab)   \* refusals are R06's and R08's business
          /\ hist' = Append(hist, op)
          /\ tab' = Apply(tab, op)
Spec == Init /\ [][Next]_<<hist, tab>>

Emit == (Len(hist) = MaxOps \/ (Prop = "R04" /\ hist # <<>>)) =>
           PrintT(<<"GEN", ToJson([ops |-> hist, requests |-> Requests, names |-> Names, methods |-> Methods])>>)
TabOK == TableOK(tab)
=============================================================================
