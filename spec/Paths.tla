------------------------------- MODULE Paths -------------------------------
(* Paths and path patterns: how text is cut into segments, what a pattern   *)
(* segment means, and which request paths a pattern matches.                *)
EXTENDS Naturals, Sequences, FiniteSets
LOCAL INSTANCE SequencesExt

Char(s, i) == SubSeq(s, i, i)

(* All pieces of text s between the separators.                              *)
Split(s, sep) ==
  LET at == SetToSortSeq({ i \in 1..Len(s) : Char(s, i) = sep }, LAMBDA x, y : x < y)
      b  == << 0 >> \o at \o << Len(s) + 1 >>
  IN  [k \in 1..(Len(b) - 1) |-> SubSeq(s, b[k] + 1, b[k + 1] - 1)]

(* Leading, trailing and repeated slashes are insignificant.                *)
Segments(s) == SelectSeq(Split(s, "/"), LAMBDA x : x # "")

IsParam(seg)  == SubSeq(seg, 1, 1) = ":"
NameOf(seg)   == SubSeq(seg, 2, Len(seg))
IsWild(seg)   == seg = "*"
HasStar(seg)  == \E i \in 1..Len(seg) : Char(seg, i) = "*"
IsLiteral(seg) == ~IsParam(seg) /\ ~IsWild(seg)

(* A * stands alone, and only at the end.                                   *)
WellFormed(pat) ==
  \A i \in 1..Len(pat) : HasStar(pat[i]) => (IsWild(pat[i]) /\ i = Len(pat))

IsWildPattern(pat) == pat # <<>> /\ IsWild(pat[Len(pat)])

Front1(pat) == SubSeq(pat, 1, Len(pat) - 1)

(* Segment by segment: a parameter matches any segment, a literal only      *)
(* itself.                                                                  *)
SegmentsMatch(pat, segs, n) ==
  \A i \in 1..n : IsParam(pat[i]) \/ pat[i] = segs[i]

(* The pattern matches the path exactly, without using a wildcard.          *)
MatchesExactly(pat, segs) ==
  /\ Len(pat) = Len(segs)
  /\ ~IsWildPattern(pat)
  /\ SegmentsMatch(pat, segs, Len(segs))

(* The wildcard stands for one or more segments.                            *)
MatchesByWildcard(pat, segs) ==
  /\ IsWildPattern(pat)
  /\ Len(segs) >= Len(pat)
  /\ SegmentsMatch(pat, segs, Len(pat) - 1)

(* Deliberately modelled as the code has it: below a literal segment the    *)
(* wildcard also stands for no segment at all (/a/* answers /a), but not at *)
(* the root and not below a parameter.                                      *)
MatchesEmptyRest(pat, segs) ==
  /\ IsWildPattern(pat)
  /\ Len(segs) = Len(pat) - 1
  /\ Len(segs) > 0
  /\ ~IsParam(pat[Len(segs)])
  /\ SegmentsMatch(pat, segs, Len(segs))

Matches(pat, segs) ==
  \/ MatchesExactly(pat, segs)
  \/ MatchesByWildcard(pat, segs)
  \/ MatchesEmptyRest(pat, segs)

(* p is strictly more specific than q, for patterns matching the same path. *)
MoreSpecific(p, q) ==
  IF IsWildPattern(p) /= IsWildPattern(q) THEN IsWildPattern(q)
  ELSE Len(p) > Len(q)

PatPrefixes(pat) == { SubSeq(pat, 1, i) : i \in 0..Len(pat) }
PatPrefixOf(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
=============================================================================
