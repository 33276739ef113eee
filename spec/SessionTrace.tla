---------------------------- MODULE SessionTrace ----------------------------
(* Validation of recorded histories of comparisons over shared schemas.       *)
(* A trace: the operations (pairs of schema numbers) with the answer observed *)
(* and the print of both operands after it; prints of the schemas before the  *)
(* first operation; answers for the same pairs from other processes that      *)
(* parsed the schemas anew (fresh).                                           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, pos, memo, nrej, ph
vars == <<tid, pos, memo, nrej, ph>>

Tr == Traces[tid]
Op(k) == Tr.steps[k]
Pair(o) == <<o.i, o.j>>
Report(p, why) == PrintT("REJECT|" \o ToString(Tr.id) \o "|C13|" \o ToString(p) \o "|" \o why)
Show(o) == "comparison of " \o ToString(o.i) \o " with " \o ToString(o.j)
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

Init == tid \in 1..Len(Traces) /\ pos = 1 /\ memo = [x \in {} |-> ""] /\ nrej = 0 /\ ph = "fresh"

\* the answers of fresh processes fix what each comparison gives
Fresh == /\ ph = "fresh"
         /\ IF pos <= Len(Tr.fresh)
            THEN LET o == Tr.fresh[pos]
                     bad == Pair(o) \in DOMAIN memo /\ memo[Pair(o)] # o.out IN
                 /\ memo' = (IF Pair(o) \in DOMAIN memo THEN memo ELSE Put(memo, Pair(o), o.out))
                 /\ (bad => Report(pos, Show(o) \o " differs between processes"))
                 /\ nrej' = nrej + (IF bad THEN 1 ELSE 0)
                 /\ pos' = pos + 1 /\ ph' = ph
            ELSE pos' = 1 /\ ph' = "run" /\ UNCHANGED <<memo, nrej>>
         /\ UNCHANGED tid

\* prints of a schema never change
PrintOK(n, s) == n = 0 \/ s = Tr.prints[n]
Compare == /\ ph = "run" /\ pos <= Len(Tr.steps)
           /\ LET o == Op(pos)
                  b1 == Pair(o) \in DOMAIN memo /\ memo[Pair(o)] # o.out
                  b2 == ~PrintOK(o.i, o.pi)
                  b3 == ~PrintOK(o.j, o.pj) IN
              /\ memo' = (IF Pair(o) \in DOMAIN memo THEN memo ELSE Put(memo, Pair(o), o.out))
              /\ (b1 => Report(pos, Show(o) \o " differs from the same comparison elsewhere"))
              /\ (b2 => Report(pos, Show(o) \o " changes its first operand"))
              /\ (b3 => Report(pos, Show(o) \o " changes its second operand"))
              /\ nrej' = nrej + (IF b1 \/ b2 \/ b3 THEN 1 ELSE 0)
           /\ pos' = pos + 1 /\ UNCHANGED <<tid, ph>>
Finish == /\ ph = "run" /\ pos > Len(Tr.steps) /\ ph' = "done"
          /\ PrintT("VERDICT|" \o ToString(Tr.id) \o "|" \o ToString(nrej))
          /\ UNCHANGED <<tid, pos, memo, nrej>>
Next == Fresh \/ Compare \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
