------------------------------ MODULE ParseTrace ------------------------------
(* Validation of what the real parser did with texts: a session is ready,     *)
(* reads its text, and must end accepted or refused - never crash or hang;    *)
(* it must be refused where Parse insists (TextWhy), and what it accepts it   *)
(* must keep: every name, literal and keyword of the text is in its print.    *)
EXTENDS Parse, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, ph, nrej
vars == <<tid, ph, nrej>>
Tr == Traces[tid]
Report(why) == PrintT("REJECT|" \o ToString(Tr.id) \o "|C06|0|" \o why)

Init == tid \in 1..Len(Traces) /\ ph = "ready" /\ nrej = 0

Crash == /\ ph = "ready" /\ Tr.outcome \in {"panic", "hang"}
         /\ Report(IF Tr.outcome = "panic" THEN "the parser crashes" ELSE "the parser does not end")
         /\ ph' = "end" /\ nrej' = 1 /\ UNCHANGED tid
\* an answer is allowed: refusing always, accepting unless the text must be refused
Refuse == /\ ph = "ready" /\ Tr.outcome = "err" /\ ph' = "end"
          /\ (Tr.musttake => Report("a text of the supported grammar is refused"))
          /\ nrej' = (IF Tr.musttake THEN 1 ELSE 0) /\ UNCHANGED tid
Accept == /\ ph = "ready" /\ Tr.outcome = "ok"
          /\ LET w == TextWhy(Tr.d, Tr.toks) IN
             /\ (w # "" => Report("accepted although it must be refused: " \o w))
             /\ ph' = (IF w # "" THEN "end" ELSE "accepted") /\ nrej' = (IF w # "" THEN 1 ELSE 0)
          /\ UNCHANGED tid
RECURSIVE SameElement(_, _, _)
SameElement(ts, i, j) ==
  IF i >= j THEN TRUE
  ELSE IF O(ts, i, ",") \/ O(ts, i, ";") THEN FALSE
  ELSE IF O(ts, i, "(") /\ Close(ts, i) # 0 THEN SameElement(ts, Close(ts, i) + 1, j)
  ELSE SameElement(ts, i + 1, j)
\* an attribute given twice: the last one is kept; so of two constraints of one name
Repeats == \/ \E w \in {"DEFAULT", "AS", "COMMENT", "COLLATE", "SET", "ON"} : \E i, j \in 1..Len(Tr.toks) :
                i < j /\ W(Tr.toks, i, w) /\ W(Tr.toks, j, w) /\ (w = "ON" => Tr.toks[i + 1] = At(Tr.toks, j + 1)) /\ SameElement(Tr.toks, i, j)
           \/ \E i, j \in 1..Len(Tr.toks) : i < j /\ Tr.toks[i] = Tr.toks[j] /\ IsName(Tr.toks[i])
                /\ WIn(Tr.toks, i - 1, {"CONSTRAINT", "INDEX", "KEY"}) /\ WIn(Tr.toks, j - 1, {"CONSTRAINT", "INDEX", "KEY"})
\* of two attributes that contradict each other one is kept
Contradicts == \/ /\ \E i \in 1..Len(Tr.toks) : W(Tr.toks, i, "NOT") /\ W(Tr.toks, i + 1, "NULL")
                  /\ \E i \in 1..Len(Tr.toks) : W(Tr.toks, i, "NULL") /\ ~W(Tr.toks, i - 1, "NOT") /\ ~W(Tr.toks, i - 1, "DEFAULT")
               \/ (\E i \in 1..Len(Tr.toks) : W(Tr.toks, i, "VIRTUAL")) /\ (\E i \in 1..Len(Tr.toks) : W(Tr.toks, i, "STORED"))
\* what of the text is not in the print
Lost == {Tr.sig[i] : i \in 1..Len(Tr.sig)} \ ({Tr.kept[i] : i \in 1..Len(Tr.kept)} \cup (IF Contradicts THEN {"NOT", "VIRTUAL", "STORED"} ELSE {}))
Keep == /\ ph = "accepted"
        /\ LET lost == IF Repeats THEN {} ELSE Lost IN
           /\ (lost # {} => Report("accepted but part of it is dropped: " \o ToString(lost)))
           /\ nrej' = (IF lost # {} THEN 1 ELSE 0)
         /\ ph' = "end" /\ UNCHANGED tid
Finish == ph = "end" /\ ph' = "done" /\ PrintT("VERDICT|" \o ToString(Tr.id) \o "|" \o ToString(nrej)) /\ UNCHANGED <<tid, nrej>>
Next == Crash \/ Refuse \/ Accept \/ Keep \/ Finish
=============================================================================
