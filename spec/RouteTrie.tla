----------------------------- MODULE RouteTrie -----------------------------
(* The router as the implementation has it (src/router/route_trie.rs): a    *)
(* radix tree whose keys share text inside a segment. A node is             *)
(*   key  : text                                                            *)
(*   cont : the key continues the segment of the parent node                *)
(*   has  : the node has a value                                            *)
(*   res  : set of [m, h]   (the node's methods)                            *)
(*   mws  : sequence of middleware ids                                      *)
(*   kids : sequence of nodes, in the order they are tried                  *)
(* Insertion and lookup follow the code step by step. MCRouteTrie checks    *)
(* that they refine the abstract table of module Routing.                   *)
EXTENDS Paths

Node(key, cont) ==
  [key |-> key, cont |-> cont, has |-> FALSE, res |-> {}, mws |-> <<>>, kids |-> <<>>]

EmptyTrie == Node("/", FALSE)

IsParamNode(n) == ~n.cont /\ IsParam(n.key)

RECURSIVE CommonFrom(_, _, _)
CommonFrom(a, b, i) ==
  IF i > Len(a) \/ i > Len(b) THEN i - 1
  ELSE IF Char(a, i) = Char(b, i) THEN CommonFrom(a, b, i + 1) ELSE i - 1
Common(a, b) == CommonFrom(a, b, 1)

Rest(s, n) == SubSeq(s, n + 1, Len(s))

(* get_insertion_action: the first child deciding what to do with the key.  *)
Act(name, idx, n) == [name |-> name, idx |-> idx, n |-> n]

RECURSIVE ActionFrom(_, _, _, _)
ActionFrom(kids, key, cont, i) ==
  IF i > Len(kids) THEN Act("Create", 0, 0)
  ELSE LET nd == kids[i] IN
       IF nd.cont # cont THEN ActionFrom(kids, key, cont, i + 1)
       ELSE IF IsParamNode(nd) \/ (~cont /\ IsParam(key))
            THEN IF key = nd.key THEN Act("Next", i, 0) ELSE Act("Error", i, 0)
       ELSE LET c == Common(nd.key, key) IN
            IF c = Len(key) /\ c = Len(nd.key) THEN Act("Next", i, c)
            ELSE IF c = Len(nd.key) THEN Act("SplitKey", i, c)
            ELSE IF c # 0 THEN Act("SplitNode", i, c)
            ELSE ActionFrom(kids, key, cont, i + 1)

InsertionAction(node, key, cont) == ActionFrom(node.kids, key, cont, 1)

PushFront(x, s) == <<x>> \o s

LeafRoute(n, m, h) ==
  IF \E r \in n.res : r.m = m THEN [ok |-> FALSE, node |-> n]
  ELSE [ok |-> TRUE, node |-> [n EXCEPT !.has = TRUE, !.res = @ \cup {[m |-> m, h |-> h]}]]

LeafMw(n, id) == [ok |-> TRUE, node |-> [n EXCEPT !.has = TRUE, !.mws = Append(@, id)]]

LeafMount(n, src) ==
  IF n.has \/ (\E i \in 1..Len(n.kids) : ~n.kids[i].cont) THEN [ok |-> FALSE, node |-> n]
  ELSE [ok |-> TRUE, node |-> [n EXCEPT !.has = src.has, !.res = src.res, !.mws = src.mws,
                                        !.kids = @ \o src.kids]]

AtLeaf(n, leaf) ==
  CASE leaf.kind = "route" -> LeafRoute(n, leaf.m, leaf.h)
    [] leaf.kind = "mw"    -> LeafMw(n, leaf.h)
    [] leaf.kind = "mount" -> LeafMount(n, leaf.src)

(* process_insertion for one segment, then the rest of the segments below   *)
(* the node it yields; the last node is replaced by Leaf(node), which is    *)
(* [ok, node].                                                              *)
RECURSIVE Descend(_, _, _, _, _)
Descend(node, key, cont, segs, leaf) ==
  LET Below(n) == IF segs = <<>> THEN AtLeaf(n, leaf) ELSE Descend(n, Head(segs), FALSE, Tail(segs), leaf)
      a == InsertionAction(node, key, cont)
      SetKid(i, r) == [ok |-> r.ok, node |-> [node EXCEPT !.kids[i] = r.node]]
  IN CASE a.name = "Create" ->
            LET r == Below(Node(key, cont)) IN
            [ok |-> r.ok,
             node |-> [node EXCEPT !.kids = IF key = "*" THEN Append(@, r.node) ELSE PushFront(r.node, @)]]
       [] a.name = "Next" -> SetKid(a.idx, Below(node.kids[a.idx]))
       [] a.name = "SplitKey" ->
            SetKid(a.idx, Descend(node.kids[a.idx], Rest(key, a.n), TRUE, segs, leaf))
       [] a.name = "SplitNode" ->
            LET old   == node.kids[a.idx]
                inter == [old EXCEPT !.key = Rest(old.key, a.n), !.cont = TRUE]
                upper == [Node(SubSeq(key, 1, a.n), old.cont) EXCEPT !.kids = <<inter>>]
                rest  == Rest(key, a.n)
            IN IF rest = "" THEN SetKid(a.idx, Below(upper))
               ELSE LET r == Below(Node(rest, TRUE))
                    IN  SetKid(a.idx, [ok |-> r.ok, node |-> [upper EXCEPT !.kids = PushFront(r.node, @)]])
       [] OTHER -> [ok |-> FALSE, node |-> node]

(* A refused insertion leaves the trie alone (MCRouteTrie shows that it may *)
(* be modelled so: nothing was inserted before the conflict is found).      *)
Insert(trie, pat, leaf) ==
  LET r == IF ~WellFormed(pat) THEN [ok |-> FALSE, node |-> trie]
           ELSE IF pat = <<>> THEN AtLeaf(trie, leaf)
           ELSE Descend(trie, Head(pat), FALSE, Tail(pat), leaf)
  IN  IF r.ok THEN r ELSE [ok |-> FALSE, node |-> trie]

TrieAddRoute(trie, pat, m, h) == Insert(trie, pat, [kind |-> "route", m |-> m, h |-> h])
TrieAddMw(trie, pat, id)      == Insert(trie, pat, [kind |-> "mw", h |-> id])
TrieMount(trie, pat, src) ==
  IF IsWildPattern(pat) /\ src.kids # <<>> THEN [ok |-> FALSE, node |-> trie]
  ELSE IF pat = <<>>
       THEN IF trie.has \/ trie.kids # <<>> THEN [ok |-> FALSE, node |-> trie]
            ELSE [ok |-> TRUE, node |-> src]
       ELSE Insert(trie, pat, [kind |-> "mount", src |-> src])

---------------------------------------------------------------------------
(* Lookup. A miss also hands back what is left of the remaining segments,   *)
(* because the code shares one list between the branches it tries.          *)
(* params are pairs in capture order, innermost first.                      *)
Usable(n, needRoute) == n.has /\ (~needRoute \/ n.res # {})
Hit(n, params, mws) == [found |-> TRUE, node |-> n, params |-> params, mws |-> mws, key |-> <<>>]
Miss(key) == [found |-> FALSE, node |-> Node("", FALSE), params |-> <<>>, mws |-> <<>>, key |-> key]

WildKid(n, needRoute) ==
  LET S == { i \in 1..Len(n.kids) : n.kids[i].key = "*" /\ n.kids[i].has
                                      /\ Usable(n.kids[i], needRoute) }
  IN  IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j

RECURSIVE NextNode(_, _, _, _)
RECURSIVE TryKids(_, _, _, _, _, _)

NextNode(node, key, isBreak, needRoute) ==
  TryKids(node.kids, 1, Head(key), Tail(key), isBreak, needRoute)

TryKids(kids, i, cur, key, isBreak, needRoute) ==
  IF i > Len(kids) THEN Miss(key)
  ELSE
  LET n == kids[i]
      Continue(k) == TryKids(kids, i + 1, cur, k, isBreak, needRoute)
  IN
  IF n.cont # isBreak THEN Continue(key)
  ELSE IF ~isBreak /\ IsParamNode(n) THEN
    IF key = <<>> THEN
      IF Usable(n, needRoute) THEN Hit(n, << <<NameOf(n.key), cur>> >>, n.mws) ELSE Continue(key)
    ELSE LET r == NextNode(n, key, FALSE, needRoute) IN
         IF r.found THEN Hit(r.node, Append(r.params, <<NameOf(n.key), cur>>),
                             (IF n.has THEN n.mws ELSE <<>>) \o r.mws)
         ELSE Continue(r.key)
  ELSE IF ~isBreak /\ n.key = "*" THEN
    IF Usable(n, needRoute) THEN Hit(n, <<>>, n.mws) ELSE Continue(key)
  ELSE
    LET c    == Common(n.key, cur)
        brk  == c = Len(n.key) /\ c # Len(cur)
        key2 == IF brk THEN PushFront(Rest(cur, c), key) ELSE key
    IN IF c # 0 /\ c = Len(n.key) THEN
         IF key2 = <<>> THEN
           IF Usable(n, needRoute) THEN Hit(n, <<>>, n.mws)
           ELSE LET w == WildKid(n, needRoute) IN
                IF w # 0 THEN Hit(n.kids[w], <<>>, (IF n.has THEN n.mws ELSE <<>>) \o n.kids[w].mws)
                ELSE Continue(key2)
         ELSE LET r == NextNode(n, key2, brk, needRoute) IN
              IF r.found THEN Hit(r.node, r.params, (IF n.has /\ ~brk THEN n.mws ELSE <<>>) \o r.mws)
              ELSE Continue(r.key)
       ELSE Continue(key2)

TrieSearch(trie, segs) ==
  IF segs = <<>>
  THEN IF trie.has THEN Hit(trie, <<>>, trie.mws) ELSE Miss(<<>>)
  ELSE LET r1 == NextNode(trie, segs, FALSE, TRUE)
           r  == IF r1.found THEN r1 ELSE NextNode(trie, segs, FALSE, FALSE)
       IN  IF r.found THEN [r EXCEPT !.mws = (IF trie.has THEN trie.mws ELSE <<>>) \o @] ELSE r

(* The answer to a request: method lookup at the node found.                *)
TrieLookup(trie, m, segs) ==
  LET r == TrieSearch(trie, segs) IN
  IF r.found /\ (\E x \in r.node.res : x.m = m)
  THEN [found |-> TRUE, h |-> (CHOOSE x \in r.node.res : x.m = m).h, mws |-> r.mws, params |-> r.params]
  ELSE [found |-> FALSE, h |-> "", mws |-> <<>>, params |-> <<>>]

(* Captures are stored from the inside out, so for one name the outermost   *)
(* capture stays.                                                           *)
TrieParam(params, name) ==
  LET P == { i \in 1..Len(params) : params[i][1] = name }
  IN  IF P = {} THEN "-" ELSE "=" \o params[CHOOSE i \in P : \A j \in P : i >= j][2]

---------------------------------------------------------------------------
(* Structural facts of every reachable trie.                                *)
RECURSIVE NodeOK(_)
NodeOK(n) ==
  /\ \A i \in 1..Len(n.kids) : n.kids[i].key # "" /\ NodeOK(n.kids[i])
  /\ \A i, j \in 1..Len(n.kids) :
        i # j /\ n.kids[i].cont = n.kids[j].cont =>
          /\ Char(n.kids[i].key, 1) # Char(n.kids[j].key, 1)
          /\ ~IsParamNode(n.kids[i])
  /\ \A i \in 1..Len(n.kids) : n.kids[i].key = "*" => \A j \in 1..Len(n.kids[i].kids) : FALSE
TrieOK(t) == NodeOK(t)
=============================================================================
