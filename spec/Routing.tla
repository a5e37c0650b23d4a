------------------------------ MODULE Routing ------------------------------
(* The abstract route table of a router, its registration operations with   *)
(* their acceptance rules, mounting, and the lookup of a request.           *)
(*                                                                          *)
(* A table is a record                                                      *)
(*   claims : set of patterns; every prefix of a registered pattern. These  *)
(*            are the paths "taken" by something, and decide conflicts.     *)
(*   routes : set of [pat, m, h]; handler h answers method m at pattern pat *)
(*   mws    : sequence of [pat, id] in registration order                   *)
(* A pattern is a sequence of segments; the root is <<>>.                   *)
EXTENDS Paths

EmptyTable == [claims |-> {<<>>}, routes |-> {}, mws |-> <<>>]

Children(t, pat) == { c \in t.claims : Len(c) = Len(pat) + 1 /\ PatPrefixOf(pat, c) }
NextSegments(t, pat) == { c[Len(c)] : c \in Children(t, pat) }

(* May pattern pat be claimed next to what is there? A parameter may not    *)
(* stand beside any other segment, so below one prefix there is either one  *)
(* parameter and nothing else, or no parameter.                             *)
ClaimOK(t, pat) ==
  \A i \in 1..Len(pat) :
     LET C == NextSegments(t, SubSeq(pat, 1, i - 1))
     IN  pat[i] \in C \/ (~IsParam(pat[i]) /\ \A s \in C : ~IsParam(s)) \/ C = {}

Claim(t, pat) == t.claims \cup PatPrefixes(pat)

HasRoute(t, pat)    == \E r \in t.routes : r.pat = pat
HasRouteFor(t, pat, m) == \E r \in t.routes : r.pat = pat /\ r.m = m
HasMw(t, pat)       == \E i \in 1..Len(t.mws) : t.mws[i].pat = pat

---------------------------------------------------------------------------
(* Registration: acceptance and effect. A refused registration leaves the   *)
(* table alone.                                                             *)
RouteOK(t, pat, m) == WellFormed(pat) /\ ClaimOK(t, pat) /\ ~HasRouteFor(t, pat, m)
AddRoute(t, pat, m, h) ==
  [t EXCEPT !.claims = Claim(t, pat), !.routes = @ \cup {[pat |-> pat, m |-> m, h |-> h]}]

MwOK(t, pat) == WellFormed(pat) /\ ClaimOK(t, pat)
AddMw(t, pat, id) ==
  [t EXCEPT !.claims = Claim(t, pat), !.mws = Append(@, [pat |-> pat, id |-> id])]

IsEmpty(t) == t.claims = {<<>>} /\ t.routes = {} /\ t.mws = <<>>

MountOK(t, pat, s) ==
  IF pat = <<>> THEN IsEmpty(t)
  ELSE /\ WellFormed(pat)
       /\ IsWildPattern(pat) => s.claims = {<<>>}
       /\ ClaimOK(t, pat)
       /\ ~HasRoute(t, pat) /\ ~HasMw(t, pat) /\ Children(t, pat) = {}
AddMount(t, pat, s) ==
  [claims |-> Claim(t, pat) \cup { pat \o c : c \in s.claims },
   routes |-> t.routes \cup { [r EXCEPT !.pat = pat \o @] : r \in s.routes },
   mws    |-> t.mws \o [ i \in 1..Len(s.mws) |-> [s.mws[i] EXCEPT !.pat = pat \o @] ]]

---------------------------------------------------------------------------
(* Lookup *)
Candidates(t, segs) ==
  { p \in { r.pat : r \in t.routes } : Matches(p, segs) }

Best(t, segs) ==
  CHOOSE p \in Candidates(t, segs) :
     \A q \in Candidates(t, segs) : q = p \/ MoreSpecific(p, q)

(* Middleware of the answering pattern: of the root, of each prefix and of  *)
(* the pattern itself, outermost first, registration order on one path.     *)
RECURSIVE Flatten(_)
Flatten(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flatten(Tail(ss))
MwsAt(t, pat) ==
  LET S == SelectSeq(t.mws, LAMBDA x : x.pat = pat)
  IN  [ i \in 1..Len(S) |-> S[i].id ]
MwsOf(t, pat) == Flatten([ i \in 1..Len(pat) + 1 |-> MwsAt(t, SubSeq(pat, 1, i - 1)) ])

(* Value of parameter name: the request segment at its position. Should one *)
(* name occur twice, the outermost position gives the value.                *)
ParamPositions(pat, name) == { i \in 1..Len(pat) : IsParam(pat[i]) /\ NameOf(pat[i]) = name }
HasParam(pat, name) == ParamPositions(pat, name) # {}
ParamValue(pat, segs, name) ==
  LET P == ParamPositions(pat, name) IN segs[CHOOSE i \in P : \A j \in P : i <= j]

NotFound == [found |-> FALSE, h |-> "", pat |-> <<>>, mws |-> <<>>]

Lookup(t, m, segs) ==
  IF Candidates(t, segs) = {} THEN NotFound
  ELSE LET p == Best(t, segs)
       IN  IF HasRouteFor(t, p, m)
           THEN [found |-> TRUE,
                 h   |-> (CHOOSE r \in t.routes : r.pat = p /\ r.m = m).h,
                 pat |-> p,
                 mws |-> MwsOf(t, p)]
           ELSE NotFound

---------------------------------------------------------------------------
(* Facts about any table reachable through accepted registrations.          *)
PrefixClosed(t) == \A c \in t.claims : PatPrefixes(c) \subseteq t.claims
ClaimsCover(t) ==
  /\ \A r \in t.routes : r.pat \in t.claims
  /\ \A i \in 1..Len(t.mws) : t.mws[i].pat \in t.claims
NoAmbiguity(t) ==
  \A c \in t.claims :
    \A s \in NextSegments(t, c) : IsParam(s) => NextSegments(t, c) = {s}
OneHandler(t) ==
  \A r1, r2 \in t.routes : (r1.pat = r2.pat /\ r1.m = r2.m) => r1.h = r2.h
AllWellFormed(t) == \A c \in t.claims : WellFormed(c)

TableOK(t) ==
  PrefixClosed(t) /\ ClaimsCover(t) /\ NoAmbiguity(t) /\ OneHandler(t) /\ AllWellFormed(t)

(* For every path there is at most one most specific pattern.               *)
UniqueBest(t, segs) ==
  LET C == Candidates(t, segs)
  IN  C # {} => Cardinality({ p \in C : \A q \in C : q = p \/ MoreSpecific(p, q) }) = 1

(* Two tables answer alike (middleware of one path compared as a bag is     *)
(* left to the caller; here exactly alike).                                 *)
SameAnswers(t, u, m, segs) == Lookup(t, m, segs) = Lookup(u, m, segs)
=============================================================================
