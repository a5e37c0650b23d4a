------------------------------- MODULE Bytes -------------------------------
(* Byte strings are sequences of integers 0..255. Helpers that stay cheap   *)
(* on long ones: hexadecimal text, splitting, UTF-8, Rust's number syntax.  *)
EXTENDS Integers, Sequences, FiniteSets

HexDigit == << "0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f" >>
HexByte(n) == HexDigit[(n \div 16) + 1] \o HexDigit[(n % 16) + 1]

(* by halves, so that no long chain of intermediate strings is built        *)
RECURSIVE HexRange(_, _, _)
HexRange(b, lo, hi) ==
  IF lo > hi THEN ""
  ELSE IF lo = hi THEN HexByte(b[lo])
  ELSE LET mid == (lo + hi) \div 2 IN HexRange(b, lo, mid) \o HexRange(b, mid + 1, hi)
Hex(b) == HexRange(b, 1, Len(b))

Text(b) == "s:" \o Hex(b)

RECURSIVE JoinRange(_, _, _, _)
JoinRange(ss, sep, lo, hi) ==
  IF lo > hi THEN ""
  ELSE IF lo = hi THEN ss[lo]
  ELSE LET mid == (lo + hi) \div 2 IN JoinRange(ss, sep, lo, mid) \o sep \o JoinRange(ss, sep, mid + 1, hi)
Join(ss, sep) == JoinRange(ss, sep, 1, Len(ss))

Indices(b) == [ i \in 1..Len(b) |-> i ]
Positions(b, x) == SelectSeq(Indices(b), LAMBDA i : b[i] = x)
Has(b, x) == \E i \in 1..Len(b) : b[i] = x

(* Pieces of b between bytes x; always at least one.                        *)
SplitAt(b, x) ==
  LET p == Positions(b, x)
      n == Len(p)
  IN  [ k \in 1..n + 1 |-> SubSeq(b, IF k = 1 THEN 1 ELSE p[k - 1] + 1, IF k = n + 1 THEN Len(b) ELSE p[k] - 1) ]

FirstPos(b, x) == IF Has(b, x) THEN Positions(b, x)[1] ELSE 0

(* Byte-wise lexicographic order.                                           *)
RECURSIVE LexFrom(_, _, _)
LexFrom(a, b, i) ==
  IF i > Len(b) THEN FALSE
  ELSE IF i > Len(a) THEN TRUE
  ELSE IF a[i] /= b[i] THEN a[i] < b[i]
  ELSE LexFrom(a, b, i + 1)
LexLess(a, b) == LexFrom(a, b, 1)

(* Tuples in the order of their first components, equal ones as they were.  *)
RECURSIVE Merge(_, _, _, _, _)
Merge(a, b, i, j, acc) ==
  IF i > Len(a) THEN acc \o SubSeq(b, j, Len(b))
  ELSE IF j > Len(b) THEN acc \o SubSeq(a, i, Len(a))
  ELSE IF LexLess(b[j][1], a[i][1]) THEN Merge(a, b, i, j + 1, Append(acc, b[j]))
  ELSE Merge(a, b, i + 1, j, Append(acc, a[i]))
RECURSIVE SortRange(_, _, _)
SortRange(s, lo, hi) ==
  IF lo > hi THEN <<>>
  ELSE IF lo = hi THEN << s[lo] >>
  ELSE LET mid == (lo + hi) \div 2 IN Merge(SortRange(s, lo, mid), SortRange(s, mid + 1, hi), 1, 1, <<>>)
Sorted(s) == SortRange(s, 1, Len(s))

RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN << << x >> >> \o SeqOf(S \ {x})
SortedKeys(S) == LET s == Sorted(SeqOf(S)) IN [ k \in 1..Len(s) |-> s[k][1] ] \o <<>>

---------------------------------------------------------------------------
(* UTF-8 *)
IsCont(x) == x >= 128 /\ x < 192

(* Number of bytes of the valid character starting at i; 0 if there is none. *)
CharLen(b, i) ==
  LET x == b[i]
      At(k) == IF i + k <= Len(b) THEN b[i + k] ELSE 0
  IN  CASE x < 128 -> 1
        [] x >= 194 /\ x < 224 -> IF IsCont(At(1)) THEN 2 ELSE 0
        [] x >= 224 /\ x < 240 ->
             IF (CASE x = 224 -> At(1) >= 160 /\ At(1) < 192
                   [] x = 237 -> At(1) >= 128 /\ At(1) < 160
                   [] OTHER -> IsCont(At(1))) /\ IsCont(At(2)) THEN 3 ELSE 0
        [] x >= 240 /\ x < 245 ->
             IF (CASE x = 240 -> At(1) >= 144 /\ At(1) < 192
                   [] x = 244 -> At(1) >= 128 /\ At(1) < 144
                   [] OTHER -> IsCont(At(1))) /\ IsCont(At(2)) /\ IsCont(At(3)) THEN 4 ELSE 0
        [] OTHER -> 0

(* Length of the longest piece at i that could start a character but does   *)
(* not complete one (at least 1): what one replacement character stands for. *)
BadLen(b, i) ==
  LET x == b[i]
      At(k) == IF i + k <= Len(b) THEN b[i + k] ELSE 0
      Second == CASE x >= 194 /\ x < 224 -> FALSE
                  [] x = 224 -> At(1) >= 160 /\ At(1) < 192
                  [] x = 237 -> At(1) >= 128 /\ At(1) < 160
                  [] x > 224 /\ x < 240 -> IsCont(At(1))
                  [] x = 240 -> At(1) >= 144 /\ At(1) < 192
                  [] x = 244 -> At(1) >= 128 /\ At(1) < 144
                  [] x > 240 /\ x < 244 -> IsCont(At(1))
                  [] OTHER -> FALSE
  IN  IF ~Second THEN 1
      ELSE IF x >= 240 /\ IsCont(At(2)) THEN 3 ELSE 2

RECURSIVE LossyFrom(_, _)
LossyFrom(b, i) ==
  IF i > Len(b) THEN <<>>
  ELSE LET n == CharLen(b, i)
       IN  IF n > 0 THEN SubSeq(b, i, i + n - 1) \o LossyFrom(b, i + n)
           ELSE << 239, 191, 189 >> \o LossyFrom(b, i + BadLen(b, i))
Ascii(b) == \A i \in 1..Len(b) : b[i] < 128
Lossy(b) == IF Ascii(b) THEN b ELSE LossyFrom(b, 1)

RECURSIVE ValidFrom(_, _)
ValidFrom(b, i) ==
  i > Len(b) \/ (CharLen(b, i) > 0 /\ ValidFrom(b, i + CharLen(b, i)))
ValidUtf8(b) == Ascii(b) \/ ValidFrom(b, 1)

CharCount(b) == Len(SelectSeq(b, LAMBDA x : ~IsCont(x)))

---------------------------------------------------------------------------
(* Numbers, as Rust's FromStr reads them: an optional sign, then digits.    *)
IsDigit(x) == x >= 48 /\ x <= 57
AllDigits(b) == b # <<>> /\ \A i \in 1..Len(b) : IsDigit(b[i])

RECURSIVE StripZeros(_)
StripZeros(b) == IF Len(b) > 1 /\ b[1] = 48 THEN StripZeros(SubSeq(b, 2, Len(b))) ELSE b

(* both without superfluous zeros *)
NotAbove(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ ~LexLess(b, a))

(* decimal digits of the largest positive and the largest negated magnitude *)
D(s) == [ i \in 1..Len(s) |->
            (CHOOSE d \in 0..9 : HexDigit[d + 1] = SubSeq(s, i, i)) + 48 ]
Ints == { "u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64" }
Signed(t) == t \in { "i8", "i16", "i32", "i64" }
MaxPos == [ u8 |-> D("255"), u16 |-> D("65535"), u32 |-> D("4294967295"), u64 |-> D("18446744073709551615"),
            i8 |-> D("127"), i16 |-> D("32767"), i32 |-> D("2147483647"), i64 |-> D("9223372036854775807") ]
MaxNeg == [ i8 |-> D("128"), i16 |-> D("32768"), i32 |-> D("2147483648"), i64 |-> D("9223372036854775808") ]

RECURSIVE DigitText(_, _)
DigitText(b, i) == IF i > Len(b) THEN "" ELSE HexDigit[b[i] - 47] \o DigitText(b, i + 1)

(* The canonical text "n:..." of the number b denotes in type t, else err.  *)
IntText(t, b) ==
  LET neg  == b # <<>> /\ b[1] = 45
      sign == b # <<>> /\ b[1] \in {43, 45}
      ds   == IF sign THEN SubSeq(b, 2, Len(b)) ELSE b
      n    == StripZeros(ds)
  IN  IF ~AllDigits(ds) THEN "err"
      ELSE IF neg /\ ~Signed(t) THEN "err"
      ELSE IF ~NotAbove(n, IF neg THEN MaxNeg[t] ELSE MaxPos[t]) THEN "err"
      ELSE "n:" \o (IF neg /\ n # <<48>> THEN "-" ELSE "") \o DigitText(n, 1)

(* Floating point: only simple decimals are specified ("n:" and the text),  *)
(* and texts that cannot be numbers ("err"); "any" is left open.            *)
FloatText(b) ==
  LET neg == b # <<>> /\ b[1] = 45
      c   == IF neg THEN SubSeq(b, 2, Len(b)) ELSE b
      dot == FirstPos(c, 46)
      ip  == IF dot = 0 THEN c ELSE SubSeq(c, 1, dot - 1)
      fp  == IF dot = 0 THEN <<>> ELSE SubSeq(c, dot + 1, Len(c))
      simple == /\ AllDigits(ip) /\ (dot # 0 => AllDigits(fp) /\ fp[Len(fp)] # 48)
                /\ (Len(ip) > 1 => ip[1] # 48) /\ Len(ip) + Len(fp) <= 6
                /\ ~(neg /\ ip = <<48>> /\ dot = 0)
      possible == { 43, 45, 46, 69, 101 } \cup 48..57
      words == { << 105,110,102 >>, << 110,97,110 >>, << 78,97,78 >>, << 105,110,102,105,110,105,116,121 >> }
  IN  IF simple THEN "n:" \o (IF neg THEN "-" ELSE "") \o DigitText(ip, 1) \o (IF dot # 0 THEN "." \o DigitText(fp, 1) ELSE "")
      ELSE IF b = <<>> THEN "err"
      ELSE IF \E i \in 1..Len(b) : b[i] >= 128 \/ b[i] = 32 \/ b[i] = 44 \/ b[i] = 58 THEN "err"
      ELSE "any"

TrueText  == << 116, 114, 117, 101 >>
FalseText == << 102, 97, 108, 115, 101 >>

(* Canonical text of the value the whole text b denotes in scalar type t.   *)
ScalarText(t, b) ==
  CASE t = "string" -> Text(b)
    [] t = "bool"   -> IF b = TrueText THEN "b:true" ELSE IF b = FalseText THEN "b:false" ELSE "err"
    [] t = "char"   -> IF CharCount(b) = 1 THEN Text(b) ELSE "err"
    [] t \in Ints   -> IntText(t, b)
    [] t \in { "f32", "f64" } -> FloatText(b)
    [] t = "unit"   -> "unit"
Scalars == { "string", "bool", "char", "f32", "f64" } \cup Ints
=============================================================================
