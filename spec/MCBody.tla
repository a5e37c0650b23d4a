------------------------------- MODULE MCBody -------------------------------
(* A request body arrives in chunks while the request is being served, and  *)
(* is read at most once: whoever reads first waits for all of it and gets   *)
(* it whole; whoever reads later finds nothing. The reader's answer must be *)
(* that of the undivided body, for every division.                          *)
(* Every finished behaviour is printed, to be replayed on the real code.    *)
EXTENDS FormData, JsonText, TLC, Json, IOUtils

Big == IOEnv.VERIF_TIER = "thorough"

B(s) == CASE s = "form-int"    -> << 110,61,49,50,51,38,110,61,52 >>            \* n=123&n=4
          [] s = "form-esc"    -> << 97,61,37,67,51,37,65,57 >>                 \* a=%C3%A9
          [] s = "form-utf8"   -> << 195,169,61,195,169 >>                      \* e-acute twice
          [] s = "form-bad"    -> << 97,61,255,38,61 >>
          [] s = "json-int"    -> << 91,49,44,50,51,44,52,93 >>                 \* [1,23,4]
          [] s = "json-obj"    -> << 123,34,110,34,58,49,50,125 >>              \* {"n":12}
          [] s = "json-esc"    -> << 34,92,117,48,48,101,57,34 >>               \* "\u00e9"
          [] s = "json-utf8"   -> << 34,226,130,172,34 >>
          [] s = "json-cut"    -> << 123,34,110,34,58,49 >>
          [] s = "json-two"    -> << 49,50,32,51 >>
          [] s = "empty"       -> <<>>
          [] s = "form-long"   -> << 110,61,49,50,51,52,53,54,38,109,61,55 >>
Kinds(s) == CASE s \in {"form-int", "form-esc", "form-utf8", "form-bad", "form-long"} -> {"form"}
              [] s = "empty" -> {"form", "json"}
              [] OTHER -> {"json"}
Bodies == {"form-int", "form-esc", "form-utf8", "form-bad", "json-int", "json-obj", "json-esc", "json-utf8", "json-cut", "json-two", "empty"}
          \cup (IF Big THEN {"form-long"} ELSE {})

MapList == [t |-> "map", s |-> [t |-> "list", s |-> [t |-> "string"]]]
Parse(kind, b) == IF kind = "form" THEN DecodeForm(MapList, b) ELSE DecodeJson([t |-> "any"], b)

VARIABLES name, kind, at, chunks, ended, slot, reads
vars == <<name, kind, at, chunks, ended, slot, reads>>

Whole == B(name)
MaxEmpty == IF Big THEN 2 ELSE 1
Empties == Cardinality({ k \in 1..Len(chunks) : chunks[k] = 0 })

Init == /\ name \in Bodies /\ kind \in Kinds(name)
        /\ at = 0 /\ chunks = <<>> /\ ended = FALSE /\ slot = "full" /\ reads = <<>>

Deliver ==
  /\ ~ended
  /\ \E n \in 0..(Len(Whole) - at) :
       /\ n = 0 => Empties < MaxEmpty /\ Len(Whole) <= (IF Big THEN 8 ELSE 6)
       /\ chunks' = Append(chunks, n) /\ at' = at + n
  /\ UNCHANGED <<name, kind, ended, slot, reads>>
End == /\ ~ended /\ at = Len(Whole) /\ ended' = TRUE
       /\ UNCHANGED <<name, kind, at, chunks, slot, reads>>

RECURSIVE Piece(_, _)
Piece(k, from) == IF k > Len(chunks) THEN <<>>
                  ELSE SubSeq(Whole, from + 1, from + chunks[k]) \o Piece(k + 1, from + chunks[k])
Collected == Piece(1, 0)

Read ==    \* returns once everything has arrived
  /\ ended /\ Len(reads) < 2
  /\ reads' = Append(reads, Parse(kind, IF slot = "full" THEN Collected ELSE <<>>))
  /\ slot' = "taken"
  /\ UNCHANGED <<name, kind, at, chunks, ended>>

Next == Deliver \/ End \/ Read
Spec == Init /\ [][Next]_vars

DivisionFree == reads # <<>> => reads[1] = Parse(kind, Whole)
ReadOnce     == Len(reads) = 2 => reads[2] = Parse(kind, <<>>)

Emit == (Len(reads) = 2) =>
           PrintT(<<"GEN", ToJson([name |-> name, kind |-> kind, body |-> Whole, chunks |-> chunks])>>)
=============================================================================
