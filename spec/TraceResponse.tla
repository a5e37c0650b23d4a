--------------------------- MODULE TraceResponse ---------------------------
(* Checks responses the real code built.                                    *)
(*   files   l.names: << path, summary >> of the files there are            *)
(*   built   the response that program l.prog made, read off it directly    *)
(*   served  the answer a client got from a handler running l.prog          *)
EXTENDS ResponseOps, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, files
vars == << i, files >>
Init == i = 0 /\ files = <<>>

Framing == { "content-length", "date", "transfer-encoding", "connection" }
Own(l) == [l EXCEPT !.headers = SelectSeq(l.headers, LAMBDA h : h[1] \notin Framing)]
Once(l) == \A j, k \in 1..Len(l.headers) : l.headers[j][1] = l.headers[k][1] => j = k

Step(l) ==
  CASE l.e = "files"  -> files' = [ p \in { l.names[k][1] : k \in 1..Len(l.names) } |->
                                      l.names[CHOOSE k \in 1..Len(l.names) : l.names[k][1] = p][2] ]
    [] l.e = "built"  -> TRUE = Fits(Built(l.prog, files), l) /\ UNCHANGED files
    [] l.e = "served" -> TRUE = (Once(Own(l)) /\ Fits(Built(l.prog, files), Own(l))) /\ UNCHANGED files

Next == i < Len(Trace) /\ i' = i + 1 /\ Step(Trace[i + 1])
Spec == Init /\ [][Next]_vars

Accepted ==
  LET n == TLCGet("stats").diameter - 1
  IN  PrintT(<<"TRACE", n, Len(Trace)>>) /\ n = Len(Trace)
=============================================================================
