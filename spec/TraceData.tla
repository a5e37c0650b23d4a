----------------------------- MODULE TraceData -----------------------------
(* Checks recorded conversions of the real code. Each line is one call:     *)
(*   form / query / json  l.b bytes, l.sh shape                             *)
(*   map      l.tab field table handed to the map decoder, l.sh             *)
(*   param    l.b text (l.has whether the parameter exists), l.sh scalar    *)
(*   broken   as form/json, but the body broke off                          *)
(*   read     one reading of a body (l.g names the body and the kind of     *)
(*            reading); the first line of a group is the undivided body     *)
(*   reset    starts a new group                                            *)
EXTENDS FormData, JsonText, TLC, Json, IOUtils

Prop  == IOEnv.PROP
Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, memo
vars == <<i, memo>>
Init == i = 0 /\ memo = <<>>

(* "any" stands for a number the specification leaves open; the shapes that *)
(* contain such numbers are only used alone in a structure.                 *)
Agrees(out, want) == out = want \/ (want = "{any}" /\ out # "panic") \/ (want = "any" /\ out # "panic")

(* A text that is not JSON may pass if the bad part lies in a member the    *)
(* target ignores; whether escapes and characters there are examined is     *)
(* left open.                                                               *)
JsonOpen(l) == l.sh.t # "any" /\ (~Ascii(l.b) \/ Has(l.b, 92)) /\ ~ParseJson(l.b).ok

(* Numbers with large exponents, or very many digits, may be too large.     *)
MayBeTooLarge(b) ==
  \E k \in 1..Len(b) :
    \/ /\ b[k] \in { 69, 101 } /\ k > 1 /\ IsDigit(b[k - 1])
       /\ LET s == IF Cur(b, k + 1) = 43 THEN k + 2 ELSE k + 1 IN DigitsEnd(b, s) - s >= 3
    \/ IsDigit(b[k]) /\ DigitsEnd(b, k) - k >= 300

Want(l) ==
  CASE l.e \in {"form", "query"} -> DecodeForm(l.sh, l.b)
    [] l.e = "map"    -> Decode(l.sh, l.tab)
    [] l.e = "json"   -> DecodeJson(l.sh, l.b)
    [] l.e = "broken" -> "err"
    [] l.e = "param"  -> IF l.has = "yes" THEN ScalarText(l.sh.t, l.b) ELSE "err"

Step(l) ==
  CASE l.e = "reset" -> memo' = <<>>
    [] l.e = "read"  ->
         /\ TRUE = (l.g \in DOMAIN memo => l.out = memo[l.g])
         /\ l.out # "panic" /\ l.out # "lost"
         /\ memo' = IF l.g \in DOMAIN memo THEN memo ELSE (l.g :> l.out) @@ memo
    [] OTHER ->
         /\ TRUE = (\/ Agrees(l.out, Want(l))
                    \/ l.e = "json" /\ JsonOpen(l) /\ l.out # "panic"
                    \/ l.e = "json" /\ l.out = "err" /\ MayBeTooLarge(l.b))
         /\ UNCHANGED memo

Next == i < Len(Trace) /\ i' = i + 1 /\ Step(Trace[i + 1])
Spec == Init /\ [][Next]_vars

Accepted ==
  LET n == TLCGet("stats").diameter - 1
  IN  PrintT(<<"TRACE", n, Len(Trace)>>) /\ n = Len(Trace)
=============================================================================
