-------------------------------- MODULE Apply --------------------------------
(* What `ddlctl apply` does with the statements of a difference, and the      *)
(* scenarios it is tried on: the dialect, the number of statements, what the  *)
(* user answers, which statements the database refuses and for how long.      *)
(* The machine leaves open what an implementation may choose (how often it    *)
(* retries when nothing is gained any more); the invariants are C07 C08 C09.  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

MaxN == atoi(IOEnv.APPLY_N)
Dialects == {"postgres", "cockroachdb", "mysql", "spanner"}
Retrying == {"postgres", "cockroachdb", "mysql"}

\* answers; those of Yes approve
Yes == {"yes", "yeseof", "slow", "auto", "autoenv", "autono"}
No == {"no", "blank", "tab", "comma", "ye", "empty", "eof", "upper", "lead", "trail", "more", "second", "y", "quoted", "long", "envfalse", "optfalse", "double", "cased", "nul"}
\* how long the database refuses a statement
Faults(d) == CASE d = "mysql" -> {"ok", "f1", "f2", "fn", "all", "exists", "dup", "x1", "fk1", "next"}
               [] d = "spanner" -> {"ok", "f1", "all", "exists"}
               [] OTHER -> {"ok", "f1", "fn", "all", "exists", "next"}
Batch(d) == IF d = "spanner" THEN {"", "start", "run"} ELSE {""}
Opens == {"", "open", "ping"}

\* what somebody else changes while the user is asked: the wanted schema, the schema of the database
NotShown == 2
Drifts == {"", "file", "db"}

VARIABLES d, n, ans, fault, bf, of, drift, ph, shown, att, acc, queue, gained, batch, world, sent
\* world: the state of the inputs (1 after they have been changed); shown: the one whose difference was displayed (2: none);
\* sent: those whose statements have been sent
vars == <<d, n, ans, fault, bf, of, drift, ph, shown, att, acc, queue, gained, batch, world, sent>>
scen == <<d, n, ans, fault, bf, of, drift>>

AllSeq == [i \in 1..n |-> i]
Stm == 1..n
\* what the database answers to statement i when it comes for the k-th time, with the statements of a accepted before
Answer(i, k, a) ==
  LET f == fault[i] IN
  CASE f = "ok" -> "ok"
    [] f \in {"f1", "fk1"} -> IF k <= 1 THEN "err" ELSE "ok"
    [] f = "f2" -> IF k <= 2 THEN "err" ELSE "ok"
    [] f = "fn" -> IF k <= n THEN "err" ELSE "ok"
    [] f = "x1" -> IF k <= 1 THEN "err" ELSE "present"
    [] f \in {"exists", "dup"} -> IF d = "mysql" THEN "present" ELSE "err"
    [] f = "next" -> IF i < n /\ i + 1 \notin a THEN "err" ELSE "ok"
    [] OTHER -> "err"

Init == /\ d \in Dialects /\ n \in 0..MaxN /\ ans \in Yes \cup No
        /\ fault \in [1..n -> Faults(d)] /\ bf \in Batch(d) /\ of \in Opens
        \* faults matter only after an approval; without one the database accepts or refuses everything
        /\ (ans \in {"yes", "auto"} \/ (fault \in [1..n -> {"ok"}] \cup [1..n -> {"all"}] /\ bf = "" /\ of = ""))
        /\ (of # "" => bf = "" /\ fault \in [1..n -> {"ok"}])
        /\ (bf # "" => fault \in [1..n -> {"ok"}])
        /\ drift \in Drifts /\ (drift # "" => ans = "yes" /\ n > 0 /\ of = "" /\ bf = "" /\ fault \in [1..n -> {"ok"}])
        /\ world = 0 /\ sent = {}
        /\ ph = "start" /\ shown = NotShown /\ att = [i \in 1..n |-> 0] /\ acc = {} /\ queue = <<>> /\ gained = TRUE /\ batch = ""

Approved == ans \in Yes
Show == /\ ph = "start" /\ IF n = 0 THEN ph' = "ok" /\ shown' = NotShown ELSE ph' = "ask" /\ shown' = world
        /\ UNCHANGED <<scen, att, acc, queue, gained, batch, world, sent>>
Drift == /\ ph = "ask" /\ drift # "" /\ world = 0 /\ world' = 1
         /\ UNCHANGED <<scen, ph, shown, att, acc, queue, gained, batch, sent>>
Ask == /\ ph = "ask" /\ ph' = (IF ~Approved THEN "failed" ELSE IF of # "" THEN "failed" ELSE "run")
       /\ queue' = (IF ph' = "run" THEN AllSeq ELSE <<>>)
       /\ UNCHANGED <<scen, shown, att, acc, gained, batch, world, sent>>
\* one round over the statements that are still to be done
Try == /\ ph = "run" /\ d \in Retrying /\ queue # <<>>
       /\ LET i == Head(queue)
              r == Answer(i, att[i] + 1, acc) IN
          /\ att' = [att EXCEPT ![i] = @ + 1]
          /\ acc' = (IF r = "err" THEN acc ELSE acc \cup {i})
          /\ gained' = (gained \/ r # "err")
       /\ queue' = Tail(queue) /\ sent' = sent \cup {shown}
       /\ UNCHANGED <<scen, ph, shown, batch, world>>
Rest == SelectSeq(AllSeq, LAMBDA i : i \notin acc)
\* the first retry is always made, later ones as long as something was gained (but no more than n + 1 rounds need be)
Rounds == IF \E i \in Stm : i \notin acc THEN att[CHOOSE i \in Stm : i \notin acc] ELSE 0
Round == /\ ph = "run" /\ d \in Retrying /\ queue = <<>>
         /\ \/ Rest = <<>> /\ ph' = "ok" /\ queue' = queue
            \/ Rest # <<>> /\ Rounds <= n /\ ph' = ph /\ queue' = Rest
            \/ Rest # <<>> /\ (Rounds > n \/ (Rounds > 1 /\ ~gained)) /\ ph' = "failed" /\ queue' = queue
         /\ gained' = FALSE
         /\ UNCHANGED <<scen, shown, att, acc, batch, world, sent>>
\* one batch
Start == /\ ph = "run" /\ d = "spanner" /\ batch = ""
         /\ IF bf = "start" THEN ph' = "failed" /\ batch' = "" ELSE ph' = ph /\ batch' = "open"
         /\ UNCHANGED <<scen, shown, att, acc, queue, gained, world, sent>>
Put == /\ ph = "run" /\ batch = "open" /\ queue # <<>>
       /\ LET i == Head(queue) IN
          /\ att' = [att EXCEPT ![i] = @ + 1]
          /\ ph' = (IF Answer(i, 1, {}) = "err" THEN "failed" ELSE ph)
       /\ queue' = Tail(queue) /\ sent' = sent \cup {shown}
       /\ UNCHANGED <<scen, shown, acc, gained, batch, world>>
RunBatch == /\ ph = "run" /\ batch = "open" /\ queue = <<>>
            /\ IF bf = "run" THEN ph' = "failed" /\ acc' = acc ELSE ph' = "ok" /\ acc' = Stm
            /\ batch' = "run"
            /\ UNCHANGED <<scen, shown, att, queue, gained, world, sent>>
Next == Show \/ Drift \/ Ask \/ Try \/ Round \/ Start \/ Put \/ RunBatch
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Over == ph \in {"ok", "failed"}
Ends == <>Over                                                      \* C09
NothingUnapproved == (\E i \in Stm : att[i] > 0) => shown # NotShown /\ Approved  \* C08
OnlyShown == sent \subseteq {shown}                                  \* C07
InOrder == \A i, j \in Stm : i < j /\ att[j] > 0 => att[i] > 0       \* C07
SuccessIsAll == Over => (ph = "ok" <=> acc = Stm)                    \* C09
Bounded == \A i \in Stm : att[i] <= n + 1                            \* C09
OneBatch == d = "spanner" => \A i \in Stm : att[i] <= 1              \* C09
RefusedNotRun == batch = "run" => \A i \in Stm : Answer(i, 1, {}) = "ok" \/ acc = {} \* C09
\* every statement the retries can bring in is brought in
Complete == ph = "failed" /\ Approved /\ of = "" /\ d \in Retrying => \E i \in Stm : fault[i] \in {"all", "f2", "fn", "exists", "next"}
AcceptedOnce == [][\A i \in Stm : i \in acc => att'[i] = att[i]]_vars   \* C09

Out == ph = "start" => PrintT("SCN|" \o ToJson([d |-> d, n |-> n, ans |-> ans, fault |-> fault, bf |-> bf, of |-> of, drift |-> drift]))
=============================================================================
