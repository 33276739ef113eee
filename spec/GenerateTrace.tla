--------------------------- MODULE GenerateTrace ---------------------------
(* Validation of generated DDL against the source it was generated from.      *)
(* A trace: files (see GenerateRules, texts as canonical token strings), dir  *)
(* (a directory was given), decoy (the tag also stands in the comment of a    *)
(* field), style ("trailing": primary key after the column list), rc, out:    *)
(* the statements read from the output [k, head, elems, tail], same (equal    *)
(* bytes in every run), parsed (the tool's parser accepts the output), broken *)
(* (a file of the source is not Go).                                          *)
EXTENDS GenerateRules, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, file, decl, stm, pos, nrej, ph
vars == <<tid, file, decl, stm, pos, nrej, ph>>
Tr == Traces[tid]
Report(why) == PrintT("REJECT|" \o ToString(Tr.id) \o "|C10|" \o ToString(pos) \o "|" \o why)
Init == tid \in 1..Len(Traces) /\ file = 1 /\ decl = 1 /\ stm = 1 /\ pos = 1 /\ nrej = 0 /\ ph = "head"

\* what must be printed for a statement
RECURSIVE Join(_, _)
Join(s, sep) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o sep \o Join(Tail(s), sep)
KeyText(key) == "PRIMARY KEY ( " \o Join(key, " , ") \o " )"
Trailing == Tr.style = "trailing"
Elems(s) == Map(s.cols, LAMBDA c : c.name \o " " \o c.def)
            \o (IF s.key # <<>> /\ ~Trailing THEN <<KeyText(s.key)>> ELSE <<>>) \o s.cons
After(s) == Join((IF s.key # <<>> /\ Trailing THEN <<KeyText(s.key)>> ELSE <<>>) \o s.opts, " , ")
Seen == IF pos <= Len(Tr.out) THEN Tr.out[pos] ELSE [k |-> "", head |-> "", elems |-> <<>>, tail |-> ""]

Head0 == /\ ph = "head"
         /\ LET must == ~Tr.broken /\ (Tr.dir \/ AnyAnnotation(Tr.files[1]))
                b1 == must /\ Tr.rc # 0
                b2 == ~must /\ (Tr.broken \/ ~Tr.decoy) /\ Tr.rc = 0
                b3 == Tr.rc = 0 /\ ~Tr.same
                b4 == Tr.rc = 0 /\ ~Tr.parsed IN
            /\ (b1 => Report("refuses an annotated source"))
            /\ (b2 => Report(IF Tr.broken THEN "accepts a source that is not Go" ELSE "accepts a file without annotation"))
            /\ (b3 => Report("generates different texts from the same source"))
            /\ (b4 => Report("what is generated cannot be parsed"))
            /\ nrej' = nrej + (IF b1 \/ b2 \/ b3 \/ b4 THEN 1 ELSE 0)
            /\ ph' = (IF Tr.rc # 0 THEN "end" ELSE "run")
         /\ UNCHANGED <<tid, file, decl, stm, pos>>

File == Tr.files[file]
Decl == File.decls[decl]
Sts == Statements(Decl)
AtStm == ph = "run" /\ file <= Len(Tr.files) /\ ~File.skip /\ decl <= Len(File.decls) /\ stm <= Len(Sts)
\* an index on the line where the table stands may come before it
Swap == stm = 1 /\ Len(Sts) > 1 /\ Sts[1].k = "table" /\ (\E i \in 1..Len(AllLines(Decl)) : AllLines(Decl)[i].k = "index" /\ \A j \in 1..(i - 1) : ~Annotation(AllLines(Decl)[j]))
Same(s, o) == o.k = s.k /\ o.head = s.head
Why(s, o) == IF o.elems # Elems(s) THEN "declares other columns or constraints for " \o s.head \o ": " \o Join(o.elems, " | ") \o " instead of " \o Join(Elems(s), " | ")
             ELSE IF o.tail # After(s) THEN "declares other options for " \o s.head \o ": " \o o.tail \o " instead of " \o After(s) ELSE ""
Body(s, o) == s.k = "table" => o.elems = Elems(s) /\ o.tail = After(s)
One == /\ AtStm
       /\ LET s == Sts[stm]
              swapped == Swap /\ pos < Len(Tr.out) /\ Same(Sts[2], Seen) /\ Same(s, Tr.out[pos + 1])
              o == IF swapped THEN Tr.out[pos + 1] ELSE Seen
              there == Same(s, o)
              bad == ~there \/ ~Body(s, o) IN
          /\ (~there => Report("does not declare " \o s.k \o " " \o s.head \o " where it stands in the source"))
          /\ (there /\ bad => Report(Why(s, o)))
          /\ nrej' = nrej + (IF bad THEN 1 ELSE 0)
          /\ stm' = stm + (IF swapped THEN 2 ELSE 1)
          /\ pos' = pos + (IF swapped THEN 2 ELSE IF there THEN 1 ELSE 0)
       /\ UNCHANGED <<tid, file, decl, ph>>
Forth == /\ ph = "run" /\ ~AtStm /\ file <= Len(Tr.files)
         /\ IF ~File.skip /\ decl < Len(File.decls) THEN decl' = decl + 1 /\ file' = file ELSE decl' = 1 /\ file' = file + 1
         /\ stm' = 1 /\ UNCHANGED <<tid, pos, nrej, ph>>
Rest == /\ ph = "run" /\ file > Len(Tr.files)
        /\ LET bad == pos <= Len(Tr.out) IN
           /\ (bad => Report("declares what the source does not: " \o Seen.k \o " " \o Seen.head))
           /\ nrej' = nrej + (IF bad THEN 1 ELSE 0)
        /\ ph' = "end" /\ UNCHANGED <<tid, file, decl, stm, pos>>
End == /\ ph = "end" /\ ph' = "done" /\ PrintT("VERDICT|" \o ToString(Tr.id) \o "|" \o ToString(nrej))
       /\ UNCHANGED <<tid, file, decl, stm, pos, nrej>>
Next == Head0 \/ One \/ Forth \/ Rest \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
