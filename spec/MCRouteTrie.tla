---------------------------- MODULE MCRouteTrie ----------------------------
(* Exhaustive model: every history of up to MaxOps registrations out of a   *)
(* small universe, applied side by side to the abstract table and to the    *)
(* implementation-shaped trie.                                              *)
EXTENDS Routing, RouteTrie, TLC

CONSTANTS Patterns,   \* set of pattern texts to register on the outer router
          MwPatterns, \* ... middleware
          SubPaths,   \* pattern texts inside a mounted router
          Mounts,     \* mount paths
          Requests,   \* request path texts
          MaxOps, MaxSub

VARIABLES tab, trie,      \* outer router: abstract, concrete
          stab, strie,    \* router under construction, to be mounted
          n, ns,          \* operations done so far
          agree           \* did both sides accept / refuse alike so far?

vars == <<tab, trie, stab, strie, n, ns, agree>>

Init ==
  /\ tab = EmptyTable /\ trie = EmptyTrie
  /\ stab = EmptyTable /\ strie = EmptyTrie
  /\ n = 0 /\ ns = 0 /\ agree = TRUE

Methods == {"GET", "POST"}
Hid(i, m) == "h" \o ToString(i) \o m
Mid(i) == "m" \o ToString(i)

Route(p, m) ==
  LET pat == Segments(p)
      ok  == RouteOK(tab, pat, m)
      r   == TrieAddRoute(trie, pat, m, Hid(n, m))
  IN /\ n < MaxOps /\ n' = n + 1
     /\ agree' = (agree /\ r.ok = ok)
     /\ tab' = IF ok THEN AddRoute(tab, pat, m, Hid(n, m)) ELSE tab
     /\ trie' = r.node
     /\ UNCHANGED <<stab, strie, ns>>

Mw(p) ==
  LET pat == Segments(p)
      ok  == MwOK(tab, pat)
      r   == TrieAddMw(trie, pat, Mid(n))
  IN /\ n < MaxOps /\ n' = n + 1
     /\ agree' = (agree /\ r.ok = ok)
     /\ tab' = IF ok THEN AddMw(tab, pat, Mid(n)) ELSE tab
     /\ trie' = r.node
     /\ UNCHANGED <<stab, strie, ns>>

SubRoute(p) ==
  LET pat == Segments(p)
      ok  == RouteOK(stab, pat, "GET")
      h   == "s" \o ToString(ns)
      r   == TrieAddRoute(strie, pat, "GET", h)
  IN /\ ns < MaxSub /\ ns' = ns + 1
     /\ agree' = (agree /\ r.ok = ok)
     /\ stab' = IF ok THEN AddRoute(stab, pat, "GET", h) ELSE stab
     /\ strie' = r.node
     /\ UNCHANGED <<tab, trie, n>>

SubMw(p) ==
  LET pat == Segments(p)
      ok  == MwOK(stab, pat)
      h   == "w" \o ToString(ns)
      r   == TrieAddMw(strie, pat, h)
  IN /\ ns < MaxSub /\ ns' = ns + 1
     /\ agree' = (agree /\ r.ok = ok)
     /\ stab' = IF ok THEN AddMw(stab, pat, h) ELSE stab
     /\ strie' = r.node
     /\ UNCHANGED <<tab, trie, n>>

Mount(p) ==
  LET pat == Segments(p)
      ok  == MountOK(tab, pat, stab)
      r   == TrieMount(trie, pat, strie)
  IN /\ Mounts # {} /\ n < MaxOps /\ n' = n + 1
     /\ agree' = (agree /\ r.ok = ok)
     /\ tab' = IF ok THEN AddMount(tab, pat, stab) ELSE tab
     /\ trie' = r.node
     /\ stab' = EmptyTable /\ strie' = EmptyTrie
     /\ UNCHANGED ns

Next ==
  \/ \E p \in Patterns, m \in Methods : Route(p, m)
  \/ \E p \in MwPatterns : Mw(p)
  \/ \E p \in SubPaths : SubRoute(p)
  \/ \E p \in SubPaths : SubMw(p)
  \/ \E p \in Mounts : Mount(p)

Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
SameAcceptance == agree

(* R01, R03, R07 on the design: the trie answers as the table says.         *)
TrieAnswers ==
  \A q \in Requests, m \in Methods :
     LET segs == Segments(q)
         A == Lookup(tab, m, segs)
         B == TrieLookup(trie, m, segs)
     IN  A.found = B.found /\ (A.found => A.h = B.h /\ A.mws = B.mws)

(* R04 *)
ParamNames == { NameOf(s) : s \in { x \in UNION { { c[i] : i \in 1..Len(c) } : c \in tab.claims } : IsParam(x) } }
TrieParams ==
  \A q \in Requests, m \in Methods :
     LET segs == Segments(q)
         A == Lookup(tab, m, segs)
         B == TrieLookup(trie, m, segs)
     IN  A.found /\ B.found =>
           \A nm \in ParamNames \cup {"none"} :
              TrieParam(B.params, nm) = IF HasParam(A.pat, nm) THEN "=" \o ParamValue(A.pat, segs, nm) ELSE "-"

AbstractOK == TableOK(tab) /\ \A q \in Requests : UniqueBest(tab, Segments(q))
ConcreteOK == TrieOK(trie)
=============================================================================
