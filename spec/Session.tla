------------------------------- MODULE Session -------------------------------
(* A user of the library holds N parsed schemas (schema 0 stands for "none")  *)
(* and compares them in any order, as often as wanted.  Comparing is a        *)
(* function: it writes neither schema, so its answer for a pair is the same   *)
(* at every point of every history and in every process.                      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

N == atoi(IOEnv.SESSION_N)
Len0 == atoi(IOEnv.SESSION_LEN)

VARIABLES hist
vars == <<hist>>

Schemas == 0..N
Ops == {[i |-> i, j |-> j] : i \in Schemas, j \in Schemas} \ {[i |-> 0, j |-> 0]}

Init == hist = <<>>
Compare(o) == Len(hist) < Len0 /\ hist' = Append(hist, o)
Next == \E o \in Ops : Compare(o)
Spec == Init /\ [][Next]_vars
Out == Len(hist) = Len0 => PrintT("HIST|" \o ToJson(hist))
=============================================================================
