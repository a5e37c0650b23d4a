------------------------------ MODULE FormData ------------------------------
(* Query strings and form bodies: from bytes to fields, and from fields to  *)
(* a value of the wanted shape. Results are canonical texts (see the        *)
(* executor's Canon), "err" being every error.                              *)
(*                                                                          *)
(* A field table is a sequence of [n, vs] with distinct names n (bytes) and *)
(* their values vs in order of appearance.                                  *)
EXTENDS Bytes

AMP == 38    EQ == 61    PLUS == 43    PCT == 37    SPACE == 32

IsHex(x) == IsDigit(x) \/ (x >= 65 /\ x <= 70) \/ (x >= 97 /\ x <= 102)
HexVal(x) == IF IsDigit(x) THEN x - 48 ELSE IF x >= 97 THEN x - 87 ELSE x - 55

(* An escape is % and two hex digits; other % signs stand for themselves.   *)
EscapeAt(b, i) == i >= 1 /\ i + 2 <= Len(b) /\ b[i] = PCT /\ IsHex(b[i + 1]) /\ IsHex(b[i + 2])

Unescape(b) ==
  LET keep == SelectSeq(Indices(b), LAMBDA i : ~EscapeAt(b, i - 1) /\ ~EscapeAt(b, i - 2))
  IN  [ k \in 1..Len(keep) |->
          LET i == keep[k] IN
          IF EscapeAt(b, i) THEN HexVal(b[i + 1]) * 16 + HexVal(b[i + 2])
          ELSE IF b[i] = PLUS THEN SPACE ELSE b[i] ]

DecodeText(b) == IF Has(b, PCT) \/ Has(b, PLUS) \/ ~Ascii(b) THEN Lossy(Unescape(b)) ELSE b

PairOf(piece) ==
  LET e == FirstPos(piece, EQ)
  IN  IF e = 0 THEN << DecodeText(piece), <<>> >>
      ELSE << DecodeText(SubSeq(piece, 1, e - 1)), DecodeText(SubSeq(piece, e + 1, Len(piece))) >>

(* All pairs with a non-empty value, in order.                              *)
Pairs(b) ==
  LET pieces == SelectSeq(SplitAt(b, AMP), LAMBDA p : p # <<>>)
  IN  SelectSeq([ k \in 1..Len(pieces) |-> PairOf(pieces[k]) ] \o <<>>, LAMBDA p : p[2] # <<>>)

(* Values of one name merged in order.                                      *)
Names(ps) == { ps[k][1] : k \in 1..Len(ps) }
ValuesOf(ps, n) ==
  LET S == SelectSeq(ps, LAMBDA p : p[1] = n) IN [ k \in 1..Len(S) |-> S[k][2] ]
(* All of them: sorted by name, then cut where the name changes.            *)
Table(ps) ==
  LET s == Sorted(ps)
      starts == SelectSeq(Indices(s), LAMBDA k : k = 1 \/ s[k][1] # s[k - 1][1])
      End(j) == IF j = Len(starts) THEN Len(s) ELSE starts[j + 1] - 1
  IN  [ j \in 1..Len(starts) |->
          [ n |-> s[starts[j]][1], vs |-> [ q \in 1..(End(j) - starts[j] + 1) |-> s[starts[j] + q - 1][2] ] \o <<>> ] ] \o <<>>

FieldsOf(b) == Table(Pairs(b))

---------------------------------------------------------------------------
(* Decoding the values of one name into a shape. A list or tuple asks for   *)
(* its elements one after the other, each of which uses up what it needs    *)
(* (a scalar one value, a pair two); what is left over stays unused.        *)
(*   D(sh, vs) = [out |-> canonical text or "err", rest |-> values from the *)
(*                last one used on]                                         *)
RECURSIVE D1(_, _)
RECURSIVE DList(_, _, _, _)
RECURSIVE DTuple(_, _, _, _)

Fail == [out |-> "err", rest |-> <<>>]

(* k-th element; vs starts with the value used last (or the first one)      *)
DList(sh, vs, first, acc) ==
  IF vs = <<>> \/ (Len(vs) = 1 /\ ~first)
  THEN [out |-> "[" \o Join(acc, ",") \o "]", rest |-> vs]
  ELSE LET r == D1(sh, IF first THEN vs ELSE Tail(vs))
       IN  IF r.out = "err" THEN Fail ELSE DList(sh, r.rest, FALSE, Append(acc, r.out))

DTuple(shs, vs, first, acc) ==
  IF Len(acc) = Len(shs) THEN [out |-> "(" \o Join(acc, ",") \o ")", rest |-> vs]
  ELSE IF vs = <<>> \/ (Len(vs) = 1 /\ ~first) THEN Fail
  ELSE LET r == D1(shs[Len(acc) + 1], IF first THEN vs ELSE Tail(vs))
       IN  IF r.out = "err" THEN Fail ELSE DTuple(shs, r.rest, FALSE, Append(acc, r.out))

D1(sh, vs) ==
  CASE sh.t = "unit" -> [out |-> "unit", rest |-> vs]
    [] sh.t \in Scalars -> IF vs = <<>> THEN Fail ELSE [out |-> ScalarText(sh.t, vs[1]), rest |-> vs]
    [] sh.t = "opt" ->
         IF vs = <<>> \/ vs[1] = <<>> THEN [out |-> "none", rest |-> vs]
         ELSE LET r == D1(sh.s, vs) IN IF r.out = "err" THEN Fail ELSE [r EXCEPT !.out = "some(" \o @ \o ")"]
    [] sh.t = "new" ->
         LET r == D1(sh.s, vs) IN IF r.out = "err" THEN Fail ELSE [r EXCEPT !.out = "new(" \o @ \o ")"]
    [] sh.t = "list" ->
         IF sh.s.t \in Scalars     \* the same, by halves, for long lists
         THEN LET os == [ k \in 1..Len(vs) |-> ScalarText(sh.s.t, vs[k]) ] \o <<>>
              IN  IF \E k \in 1..Len(os) : os[k] = "err" THEN Fail
                  ELSE [out |-> "[" \o Join(os, ",") \o "]",
                        rest |-> IF vs = <<>> THEN vs ELSE << vs[Len(vs)] >>]
         ELSE DList(sh.s, vs, TRUE, <<>>)
    [] sh.t = "tuple" -> DTuple(sh.ss, vs, TRUE, <<>>)

DecodeValue(sh, vs) == D1(sh, vs).out

(* A field the target names but the table lacks.                            *)
MissingField(f) ==
  IF f.d THEN "default" ELSE IF f.s.t = "opt" THEN "none" ELSE "err"

Entry(tab, n) ==
  LET S == { k \in 1..Len(tab) : tab[k].n = n } IN IF S = {} THEN 0 ELSE CHOOSE k \in S : TRUE

DecodeField(f, tab) ==
  LET k == Entry(tab, f.n) IN IF k = 0 THEN MissingField(f) ELSE DecodeValue(f.s, tab[k].vs)

(* Structures name their fields; maps take every name, in canonical order.  *)
Decode(sh, tab) ==
  CASE sh.t = "struct" ->
         LET os == [ k \in 1..Len(sh.fields) |-> DecodeField(sh.fields[k], tab) ]
         IN  IF \E k \in 1..Len(os) : os[k] = "err" THEN "err" ELSE "{" \o Join(os, ";") \o "}"
    [] sh.t = "map" ->
         LET es == Sorted([ k \in 1..Len(tab) |-> << tab[k].n, tab[k].vs >> ] \o <<>>)
             vt == [ k \in 1..Len(es) |-> DecodeValue(sh.s, es[k][2]) ] \o <<>>
             os == [ k \in 1..Len(es) |-> Hex(es[k][1]) \o "=" \o vt[k] ] \o <<>>
         IN  IF \E k \in 1..Len(vt) : vt[k] = "err" THEN "err" ELSE "{" \o Join(os, ";") \o "}"

DecodeForm(sh, b) == Decode(sh, FieldsOf(b))
=============================================================================
