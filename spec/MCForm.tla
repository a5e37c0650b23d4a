------------------------------- MODULE MCForm -------------------------------
(* A client composes a form pair by pair, choosing among equivalent         *)
(* spellings; the server's reading must give back what the client meant,    *)
(* whatever the spelling and however the bytes were cut into chunks.        *)
EXTENDS FormData, TLC

CONSTANTS TextNames, TextValues, MaxPairs

Nm(s) == CASE s = "a" -> <<97>> [] s = "b" -> <<98>> [] s = "empty" -> <<>> [] s = "amp" -> <<38>> [] s = "e9" -> <<195, 169>>
Val(s) == CASE s = "1" -> <<49>> [] s = "23" -> <<50, 51>> [] s = "empty" -> <<>> [] s = "sp" -> <<32>> [] s = "plus" -> <<43>>
            [] s = "eq" -> <<97, 61, 98>> [] s = "amp" -> <<38>> [] s = "pct" -> <<37>> [] s = "pct4" -> <<37, 52, 49>>
            [] s = "e9" -> <<195, 169>> [] s = "yes" -> TrueText [] s = "300" -> <<51, 48, 48>>

HexUp(n) == IF n < 10 THEN 48 + n ELSE 55 + n
HexLow(n) == IF n < 10 THEN 48 + n ELSE 87 + n

(* Spellings of one byte: must / may be escaped.                            *)
Safe(x) == IsDigit(x) \/ (x >= 65 /\ x <= 90) \/ (x >= 97 /\ x <= 122)
Esc(x, low) == << 37, IF low THEN HexLow(x \div 16) ELSE HexUp(x \div 16), IF low THEN HexLow(x % 16) ELSE HexUp(x % 16) >>
Spell(x, style) ==
  CASE style = "all" -> Esc(x, FALSE)
    [] style = "low" -> Esc(x, TRUE)
    [] style = "min" -> IF x = 32 THEN <<43>> ELSE IF Safe(x) THEN <<x>> ELSE Esc(x, FALSE)
    [] style = "raw" -> IF x \in {37, 38, 43} \/ x = 61 THEN Esc(x, FALSE) ELSE <<x>>
RECURSIVE SpellAll(_, _)
SpellAll(b, style) == IF b = <<>> THEN <<>> ELSE Spell(b[1], style) \o SpellAll(Tail(b), style)

VARIABLES meant, wire
Init == meant = <<>> /\ wire = <<>>

Glue(w, p) == IF w = <<>> THEN p ELSE w \o <<38>> \o p
AddPair(n, v, style) ==
  /\ Len(meant) < MaxPairs
  /\ meant' = Append(meant, << Nm(n), Val(v) >>)
  /\ wire' = Glue(wire, SpellAll(Nm(n), style) \o <<61>> \o SpellAll(Val(v), style))
AddBare(n) ==     \* a name without =
  /\ Len(meant) < MaxPairs
  /\ meant' = Append(meant, << Nm(n), <<>> >>)
  /\ wire' = Glue(wire, SpellAll(Nm(n), "min"))
AddAmp ==         \* superfluous separators
  /\ Len(meant) < MaxPairs
  /\ meant' = Append(meant, << <<>>, <<>> >>)
  /\ wire' = wire \o <<38>>

Next == \/ \E n \in TextNames, v \in TextValues, st \in {"all", "low", "min", "raw"} : AddPair(n, v, st)
        \/ \E n \in TextNames : AddBare(n)
        \/ AddAmp
Spec == Init /\ [][Next]_<<meant, wire>>

Present == SelectSeq(meant, LAMBDA p : p[2] # <<>>)

ReadsWhatWasMeant == Pairs(wire) = Present

Scalar(t) == [t |-> t]
Field(n, s) == [n |-> n, s |-> s, d |-> FALSE]
Struct(fs) == [t |-> "struct", fields |-> fs]
First(n) == LET vs == ValuesOf(Present, n) IN IF vs = <<>> THEN "err" ELSE Text(vs[1])

(* single value: the first; list: all in order; absent: error, none, []...  *)
FieldRules ==
  \A n \in { <<97>>, <<98>> } :
    LET vs == ValuesOf(Present, n) IN
    /\ DecodeForm(Struct(<< Field(n, Scalar("string")) >>), wire) =
         (IF vs = <<>> THEN "err" ELSE "{" \o Text(vs[1]) \o "}")
    /\ DecodeForm(Struct(<< Field(n, [t |-> "list", s |-> Scalar("string")]) >>), wire) =
         (IF vs = <<>> THEN "err" ELSE "{[" \o Join([ k \in 1..Len(vs) |-> Text(vs[k]) ], ",") \o "]}")
    /\ DecodeForm(Struct(<< Field(n, [t |-> "opt", s |-> Scalar("string")]) >>), wire) =
         (IF vs = <<>> THEN "{none}" ELSE "{some(" \o Text(vs[1]) \o ")}")
    /\ DecodeForm(Struct(<< Field(n, [t |-> "list", s |-> [t |-> "tuple", ss |-> << Scalar("string"), Scalar("string") >>]]) >>), wire) =
         (IF vs = <<>> \/ Len(vs) % 2 = 1 THEN "err"
          ELSE "{[" \o Join([ k \in 1..(Len(vs) \div 2) |-> "(" \o Text(vs[2 * k - 1]) \o "," \o Text(vs[2 * k]) \o ")" ], ",") \o "]}")

(* the table has each name once, in order, with all its values              *)
TableWhole ==
  LET tab == Table(Present) IN
  /\ { tab[k].n : k \in 1..Len(tab) } = Names(Present)
  /\ \A k \in 1..Len(tab) : tab[k].vs = ValuesOf(Present, tab[k].n)
  /\ \A k \in 1..(Len(tab) - 1) : LexLess(tab[k].n, tab[k + 1].n)

(* exchanging two neighbouring pairs of different names changes nothing     *)
Swap(ps, k) == [ps EXCEPT ![k] = ps[k + 1], ![k + 1] = ps[k]]
OrderOfNamesFree ==
  \A k \in 1..(Len(Present) - 1) :
     Present[k][1] # Present[k + 1][1] => Table(Swap(Present, k)) = Table(Present)

(* numbers: the sign and digits and nothing else; range by type             *)
Dec(n) == IF n < 10 THEN << 48 + n >> ELSE IF n < 100 THEN << 48 + (n \div 10), 48 + (n % 10) >>
          ELSE << 48 + (n \div 100), 48 + ((n \div 10) % 10), 48 + (n % 10) >>
ASSUME \A n \in 0..300 : IntText("u8", Dec(n)) = (IF n <= 255 THEN "n:" \o ToString(n) ELSE "err")
ASSUME \A n \in 0..300 : IntText("i8", <<45>> \o Dec(n)) = (IF n = 0 THEN "n:0" ELSE IF n <= 128 THEN "n:-" \o ToString(n) ELSE "err")
ASSUME \A n \in 0..300 : IntText("i8", <<43, 48>> \o Dec(n)) = (IF n <= 127 THEN "n:" \o ToString(n) ELSE "err")
ASSUME IntText("u8", <<45, 48>>) = "err" /\ IntText("u8", <<>>) = "err" /\ IntText("u8", <<43>>) = "err" /\ IntText("u8", <<32, 49>>) = "err"
ASSUME \A a, b \in { 0, 65, 128, 194, 224, 160, 237, 240, 144, 255 } : ValidUtf8(Lossy(<<a, b>>)) /\ (ValidUtf8(<<a, b>>) => Lossy(<<a, b>>) = <<a, b>>)
ASSUME \A x \in { 0, 9, 10, 32, 34, 37, 38, 43, 47, 61, 65, 127, 128, 200, 255 } : Unescape(Esc(x, TRUE)) = <<x>> /\ Unescape(Esc(x, FALSE)) = <<x>>
=============================================================================
