------------------------------ MODULE JsonText ------------------------------
(* JSON texts: which byte strings are one JSON value, which value that is,  *)
(* and how it decodes into a shape. Values are records                      *)
(*   [k |-> kind, b |-> bytes, xs |-> children, ns |-> member names]        *)
(* kinds null, true, false, int (b: sign and digits), float, str, arr, obj. *)
(* A parse at position i gives [ok, v, i] with i just after the value.      *)
EXTENDS Bytes

V(k, b, xs, ns) == [k |-> k, b |-> b, xs |-> xs, ns |-> ns]
Bad == [ok |-> FALSE, v |-> V("null", <<>>, <<>>, <<>>), i |-> 0]
Got(v, i) == [ok |-> TRUE, v |-> v, i |-> i]

Cur(b, i) == IF i <= Len(b) THEN b[i] ELSE -1
IsWs(x) == x \in {32, 9, 10, 13}
RECURSIVE SkipWs(_, _)
SkipWs(b, i) == IF IsWs(Cur(b, i)) THEN SkipWs(b, i + 1) ELSE i
RECURSIVE DigitsEnd(_, _)
DigitsEnd(b, i) == IF IsDigit(Cur(b, i)) THEN DigitsEnd(b, i + 1) ELSE i

Word(b, i, w, k) ==
  IF i + Len(w) - 1 <= Len(b) /\ SubSeq(b, i, i + Len(w) - 1) = w THEN Got(V(k, <<>>, <<>>, <<>>), i + Len(w)) ELSE Bad

(* -? (0 | [1-9][0-9]* ) (. [0-9]+)? ([eE] [+-]? [0-9]+)?                    *)
Number(b, i) ==
  LET neg == Cur(b, i) = 45
      s   == IF neg THEN i + 1 ELSE i
      e1  == IF Cur(b, s) = 48 THEN s + 1 ELSE DigitsEnd(b, s)
      hasF == Cur(b, e1) = 46
      e2  == IF hasF THEN DigitsEnd(b, e1 + 1) ELSE e1
      hasE == Cur(b, e2) \in {69, 101}
      s3  == IF hasE THEN (IF Cur(b, e2 + 1) \in {43, 45} THEN e2 + 2 ELSE e2 + 1) ELSE e2
      e3  == IF hasE THEN DigitsEnd(b, s3) ELSE e2
      ip  == SubSeq(b, s, e1 - 1)
      small == IF neg THEN NotAbove(ip, MaxNeg["i64"]) /\ ip # <<48>> ELSE NotAbove(ip, MaxPos["u64"])
  IN  IF ~IsDigit(Cur(b, s)) \/ (Cur(b, s) = 48 /\ IsDigit(Cur(b, e1)))
         \/ (hasF /\ e2 = e1 + 1) \/ (hasE /\ e3 = s3) THEN Bad
      ELSE IF hasF \/ hasE \/ ~small THEN Got(V("float", SubSeq(b, i, e3 - 1), <<>>, <<>>), e3)
      ELSE Got(V("int", SubSeq(b, i, e1 - 1), <<>>, <<>>), e3)

HexV(x) == IF IsDigit(x) THEN x - 48
           ELSE IF x >= 97 /\ x <= 102 THEN x - 87
           ELSE IF x >= 65 /\ x <= 70 THEN x - 55 ELSE -1
Hex4(b, i) ==
  IF i + 3 > Len(b) \/ \E k \in 0..3 : HexV(b[i + k]) < 0 THEN -1
  ELSE ((HexV(b[i]) * 16 + HexV(b[i + 1])) * 16 + HexV(b[i + 2])) * 16 + HexV(b[i + 3])

Utf8Of(c) ==
  IF c < 128 THEN << c >>
  ELSE IF c < 2048 THEN << 192 + (c \div 64), 128 + (c % 64) >>
  ELSE IF c < 65536 THEN << 224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64) >>
  ELSE << 240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64) >>

SimpleEscape(x) ==
  CASE x = 34 -> 34 [] x = 92 -> 92 [] x = 47 -> 47 [] x = 98 -> 8 [] x = 102 -> 12
    [] x = 110 -> 10 [] x = 114 -> 13 [] x = 116 -> 9 [] OTHER -> -1

(* the end of a run of plain bytes *)
RECURSIVE RunEnd(_, _)
RunEnd(b, i) == IF i <= Len(b) /\ b[i] >= 32 /\ b[i] # 34 /\ b[i] # 92 THEN RunEnd(b, i + 1) ELSE i

RECURSIVE Str(_, _, _)
Str(b, i, acc) ==
  LET x == Cur(b, i) IN
  IF x = 34 THEN (IF ValidUtf8(acc) THEN Got(V("str", acc, <<>>, <<>>), i + 1) ELSE Bad)
  ELSE IF x < 32 THEN Bad
  ELSE IF x # 92 THEN LET e == RunEnd(b, i) IN Str(b, e, acc \o SubSeq(b, i, e - 1))
  ELSE LET y == Cur(b, i + 1) IN
       IF y # 117
       THEN (IF SimpleEscape(y) >= 0 THEN Str(b, i + 2, Append(acc, SimpleEscape(y))) ELSE Bad)
       ELSE LET c == Hex4(b, i + 2) IN
            IF c < 0 \/ (c >= 56320 /\ c < 57344) THEN Bad
            ELSE IF c >= 55296 /\ c < 56320
            THEN LET d == IF Cur(b, i + 6) = 92 /\ Cur(b, i + 7) = 117 THEN Hex4(b, i + 8) ELSE -1
                 IN  IF d >= 56320 /\ d < 57344
                     THEN Str(b, i + 12, acc \o Utf8Of(65536 + (c - 55296) * 1024 + (d - 56320)))
                     ELSE Bad
            ELSE Str(b, i + 6, acc \o Utf8Of(c))

(* Nesting is limited: the reader refuses depth 128 and more.               *)
MaxDepth == 128

RECURSIVE Value(_, _, _)
RECURSIVE Elements(_, _, _, _)
RECURSIVE Members(_, _, _, _, _)

Elements(b, i, d, acc) ==
  LET r == Value(b, SkipWs(b, i), d) IN
  IF ~r.ok THEN Bad
  ELSE LET j == SkipWs(b, r.i) IN
       IF Cur(b, j) = 44 THEN Elements(b, j + 1, d, Append(acc, r.v))
       ELSE IF Cur(b, j) = 93 THEN Got(V("arr", <<>>, Append(acc, r.v), <<>>), j + 1)
       ELSE Bad

Members(b, i, d, ns, xs) ==
  LET s == SkipWs(b, i)
      n == IF Cur(b, s) = 34 THEN Str(b, s + 1, <<>>) ELSE Bad
      c == IF n.ok THEN SkipWs(b, n.i) ELSE 0
      r == IF n.ok /\ Cur(b, c) = 58 THEN Value(b, SkipWs(b, c + 1), d) ELSE Bad
  IN  IF ~r.ok THEN Bad
      ELSE LET j == SkipWs(b, r.i) IN
           IF Cur(b, j) = 44 THEN Members(b, j + 1, d, Append(ns, n.v.b), Append(xs, r.v))
           ELSE IF Cur(b, j) = 125 THEN Got(V("obj", <<>>, Append(xs, r.v), Append(ns, n.v.b)), j + 1)
           ELSE Bad

Value(b, i, d) ==
  LET x == Cur(b, i) IN
  CASE x = 110 -> Word(b, i, << 110, 117, 108, 108 >>, "null")
    [] x = 116 -> Word(b, i, TrueText, "true")
    [] x = 102 -> Word(b, i, FalseText, "false")
    [] x = 34  -> Str(b, i + 1, <<>>)
    [] x = 91  -> IF d + 1 >= MaxDepth THEN Bad
                  ELSE LET j == SkipWs(b, i + 1) IN
                       IF Cur(b, j) = 93 THEN Got(V("arr", <<>>, <<>>, <<>>), j + 1) ELSE Elements(b, j, d + 1, <<>>)
    [] x = 123 -> IF d + 1 >= MaxDepth THEN Bad
                  ELSE LET j == SkipWs(b, i + 1) IN
                       IF Cur(b, j) = 125 THEN Got(V("obj", <<>>, <<>>, <<>>), j + 1) ELSE Members(b, j, d + 1, <<>>, <<>>)
    [] x = 45 \/ IsDigit(x) -> Number(b, i)
    [] OTHER -> Bad

(* The whole text must be one value.                                        *)
ParseJson(b) ==
  LET r == Value(b, SkipWs(b, 1), 0)
  IN  IF r.ok /\ SkipWs(b, r.i) = Len(b) + 1 THEN r ELSE Bad

---------------------------------------------------------------------------
(* Canonical text of any value: of members with one name the last counts.   *)
IntOf(b) == IntText("i64", b)
LastWith(v, n) == CHOOSE k \in 1..Len(v.ns) : v.ns[k] = n /\ \A j \in (k + 1)..Len(v.ns) : v.ns[j] # n

RECURSIVE Canon(_)
Canon(v) ==
  CASE v.k = "null"  -> "null"
    [] v.k = "true"  -> "b:true"
    [] v.k = "false" -> "b:false"
    [] v.k = "int"   -> IF v.b[1] = 45 THEN IntText("i64", v.b) ELSE IntText("u64", v.b)
    [] v.k = "float" -> "n:f"
    [] v.k = "str"   -> Text(v.b)
    [] v.k = "arr"   -> "[" \o Join([ k \in 1..Len(v.xs) |-> Canon(v.xs[k]) ], ",") \o "]"
    [] v.k = "obj"   ->
         LET ks == SortedKeys({ v.ns[k] : k \in 1..Len(v.ns) })
         IN  "{" \o Join([ k \in 1..Len(ks) |-> Hex(ks[k]) \o "=" \o Canon(v.xs[LastWith(v, ks[k])]) ], ";") \o "}"

(* Decoding into a shape.                                                   *)
RECURSIVE JDecode(_, _)
JDecode(sh, v) ==
  CASE sh.t = "bool"   -> IF v.k = "true" THEN "b:true" ELSE IF v.k = "false" THEN "b:false" ELSE "err"
    [] sh.t = "string" -> IF v.k = "str" THEN Text(v.b) ELSE "err"
    [] sh.t = "char"   -> IF v.k = "str" /\ CharCount(v.b) = 1 THEN Text(v.b) ELSE "err"
    [] sh.t \in Ints   -> IF v.k = "int" THEN IntText(sh.t, v.b) ELSE "err"
    [] sh.t = "unit"   -> IF v.k = "null" THEN "unit" ELSE "err"
    [] sh.t = "opt"    ->
         IF v.k = "null" THEN "none"
         ELSE LET r == JDecode(sh.s, v) IN IF r = "err" THEN "err" ELSE "some(" \o r \o ")"
    [] sh.t = "new"    -> LET r == JDecode(sh.s, v) IN IF r = "err" THEN "err" ELSE "new(" \o r \o ")"
    [] sh.t = "list"   ->
         IF v.k # "arr" THEN "err"
         ELSE LET os == [ k \in 1..Len(v.xs) |-> JDecode(sh.s, v.xs[k]) ]
              IN  IF \E k \in 1..Len(os) : os[k] = "err" THEN "err" ELSE "[" \o Join(os, ",") \o "]"
    [] sh.t = "tuple"  ->
         IF v.k # "arr" \/ Len(v.xs) # Len(sh.ss) THEN "err"
         ELSE LET os == [ k \in 1..Len(v.xs) |-> JDecode(sh.ss[k], v.xs[k]) ]
              IN  IF \E k \in 1..Len(os) : os[k] = "err" THEN "err" ELSE "(" \o Join(os, ",") \o ")"
    [] sh.t = "map"    ->
         IF v.k # "obj" THEN "err"
         ELSE LET ks == SortedKeys({ v.ns[k] : k \in 1..Len(v.ns) })
                  all == [ k \in 1..Len(v.ns) |-> JDecode(sh.s, v.xs[k]) ]
              IN  IF \E k \in 1..Len(all) : all[k] = "err" THEN "err"
                  ELSE "{" \o Join([ k \in 1..Len(ks) |-> Hex(ks[k]) \o "=" \o all[LastWith(v, ks[k])] ], ";") \o "}"
    [] sh.t = "struct" ->
         IF v.k # "obj" THEN "err"
         ELSE LET At(n) == { k \in 1..Len(v.ns) : v.ns[k] = n }
                  Field(f) == IF At(f.n) = {} THEN (IF f.d THEN "default" ELSE IF f.s.t = "opt" THEN "none" ELSE "err")
                              ELSE IF Cardinality(At(f.n)) > 1 THEN "err"
                              ELSE JDecode(f.s, v.xs[CHOOSE k \in At(f.n) : TRUE])
                  os == [ k \in 1..Len(sh.fields) |-> Field(sh.fields[k]) ]
              IN  IF \E k \in 1..Len(os) : os[k] = "err" THEN "err" ELSE "{" \o Join(os, ";") \o "}"

DecodeJson(sh, b) ==
  LET r == ParseJson(b) IN
  IF ~r.ok THEN "err" ELSE IF sh.t = "any" THEN Canon(r.v) ELSE JDecode(sh, r.v)
=============================================================================
