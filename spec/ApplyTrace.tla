----------------------------- MODULE ApplyTrace -----------------------------
(* Validation of recorded runs of `ddlctl apply` (see Apply.tla).             *)
(* A trace: the dialect, the statements of the difference (want, computed by  *)
(* `ddlctl diff` from the same arguments), the driver and data source that    *)
(* must be used, whether approval is automatic, and the events in the order   *)
(* in which they happened:                                                    *)
(*   open   a connection was opened, by driver and dsn, ok or refused         *)
(*   shown  the statements displayed so far have become stmts                 *)
(*   ans    the user (or the end of input) answered s, approving or not       *)
(*   send   statement s was sent over connection conn and got resp            *)
(*   tx     begin, commit, rollback or close of connection conn               *)
(*   end    the command ended with status rc                                  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, pos, shown, approved, nxt, att, acc, last, gain, batch, inb, tx, opens, stuck, nrej, ph
vars == <<tid, pos, shown, approved, nxt, att, acc, last, gain, batch, inb, tx, opens, stuck, nrej, ph>>

Tr == Traces[tid]
W == Tr.want
N == Len(W)
E == Tr.events[pos]
Retrying == Tr.d # "spanner"
Report(p, why) == PrintT("REJECT|" \o ToString(Tr.id) \o "|" \o p \o "|" \o ToString(pos) \o "|" \o why)
\* reports the reasons of a set of <<property, reason>>
RECURSIVE All(_)
All(S) == IF S = {} THEN TRUE ELSE LET x == CHOOSE x \in S : TRUE IN Report(x[1], x[2]) /\ All(S \ {x})
If(c, p, why) == IF c THEN {<<p, why>>} ELSE {}

Init == /\ tid \in 1..Len(Traces) /\ pos = 1 /\ shown = <<>> /\ approved = Tr.auto /\ nxt = 1
        /\ att = [i \in 1..N |-> 0] /\ acc = {} /\ last = [i \in 1..N |-> 0] /\ gain = 0
        /\ batch = [st |-> "", conn |-> 0, bad |-> FALSE] /\ inb = {} /\ tx = {} /\ opens = TRUE /\ stuck = FALSE /\ nrej = 0 /\ ph = "run"

Rej(S) == All(S) /\ nrej' = nrej + Cardinality(S)
At(k) == ph = "run" /\ pos <= Len(Tr.events) /\ E.k = k
Step == pos' = pos + 1 /\ UNCHANGED <<tid, ph>>

Open == /\ At("open") /\ Step
        /\ opens' = (opens /\ E.ok)
        /\ Rej(If(E.driver # Tr.driver, "C07", "opens a database with driver " \o E.driver)
               \cup If(E.dsn \notin {Tr.dsn, Tr.dsn2}, "C07", "opens the database " \o E.dsn))
        /\ UNCHANGED <<shown, approved, nxt, att, acc, last, gain, batch, inb, tx, stuck>>

Shown == /\ At("shown") /\ Step /\ shown' = E.stmts
         /\ Rej({})
         /\ UNCHANGED <<approved, nxt, att, acc, last, gain, batch, inb, tx, opens, stuck>>

Ans == /\ At("ans") /\ Step
       /\ approved' = (approved \/ (E.yes /\ shown # <<>>))
       /\ Rej(If(N > 0 /\ shown # W /\ ~Tr.auto, "C07", "the statements displayed for approval are not those of the difference"))
       /\ UNCHANGED <<shown, nxt, att, acc, last, gain, batch, inb, tx, opens, stuck>>

\* of a send event: ctl is "start", "run" or "abort" for the statements that control a batch
Matches(s) == {i \in 1..N : W[i] = s}
\* the displayed statement that s is: the next one, else one still to be done, else any
Which(s) == LET M == Matches(s) IN
            IF M = {} THEN 0
            ELSE IF nxt \in M THEN nxt
            ELSE IF M \ acc # {} THEN CHOOSE i \in M \ acc : TRUE
            ELSE CHOOSE i \in M : TRUE
Unapproved == If(~approved, "C08", "sends a statement without approval: " \o E.s)
Place == If(E.driver # Tr.driver, "C07", "sends a statement with driver " \o E.driver)
         \cup If(E.dsn # Tr.dsn, "C07", "sends a statement to the database " \o E.dsn)

\* START BATCH DDL, RUN BATCH, ABORT BATCH
SendControl ==
  /\ At("send") /\ Tr.d = "spanner" /\ E.ctl # "" /\ Step
  /\ LET run == E.ctl = "run"
         start == E.ctl = "start" IN
     /\ Rej(Unapproved \cup Place
            \cup If(run /\ batch.bad, "C09", "runs the batch after a statement of it was refused")
            \cup If(run /\ batch.st = "open" /\ E.conn # batch.conn, "C07", "runs the batch on another connection")
            \cup If(run /\ batch.st # "open", "C07", "runs a batch that is not open")
            \cup If(run /\ ~batch.bad /\ inb # 1..N, "C07", "runs the batch without all statements")
            \cup If(start /\ batch.st # "" /\ acc # {}, "C09", "starts another batch after one has been run"))
     /\ batch' = (IF start THEN [st |-> IF E.resp = "err" THEN "failed" ELSE "open", conn |-> E.conn, bad |-> FALSE]
                  ELSE [batch EXCEPT !.st = "over"])
     /\ acc' = (IF run /\ E.resp # "err" /\ batch.st = "open" THEN acc \cup inb ELSE acc)
     /\ inb' = {}
     /\ stuck' = (stuck \/ E.resp = "err")
  /\ UNCHANGED <<shown, approved, nxt, att, last, gain, tx, opens>>

Send ==
  /\ At("send") /\ ~(Tr.d = "spanner" /\ E.ctl # "") /\ Step
  /\ LET i == Which(E.s)
         good == E.resp \in {"ok", "present"}
         b == Tr.d = "spanner" /\ batch.st = "open" /\ batch.conn = E.conn
         t == \E x \in tx : x.conn = E.conn IN
     IF i = 0
     THEN /\ Rej(Unapproved \cup Place \cup If(TRUE, "C07", "sends what was not displayed: " \o E.s))
          /\ UNCHANGED <<nxt, att, acc, last, gain, batch, inb, tx, stuck>>
     ELSE /\ Rej(Unapproved \cup Place
                 \cup If(\A k \in 1..Len(shown) : shown[k] # E.s, "C08", "sends a statement before displaying it: " \o E.s)
                 \cup If(shown # W, "C07", "the statements displayed are not those of the difference")
                 \cup If(i > nxt, "C07", "sends statement " \o ToString(i) \o " before statement " \o ToString(nxt))
                 \cup If(i \in acc \/ i \in inb, "C09", "sends a statement again that was accepted: " \o E.s)
                 \cup If(~Retrying /\ att[i] > 0 /\ i \notin inb, "C09", "retries a statement")
                 \cup If(~Retrying /\ ~b, "C07", "sends a statement outside of the batch")
                 \cup If(att[i] + 1 > 10 * (N + 2), "C09", "retries without bound"))
          /\ nxt' = (IF i = nxt THEN nxt + 1 ELSE nxt)
          /\ att' = [att EXCEPT ![i] = @ + 1]
          /\ last' = [last EXCEPT ![i] = pos]
          /\ gain' = (IF good /\ ~b THEN pos ELSE gain)
          /\ acc' = (IF good /\ ~b /\ ~t THEN acc \cup {i} ELSE acc)
          /\ tx' = (IF good /\ t THEN {IF x.conn = E.conn THEN [x EXCEPT !.did = @ \cup {i}] ELSE x : x \in tx} ELSE tx)
          /\ inb' = (IF good /\ b THEN inb \cup {i} ELSE inb)
          /\ batch' = (IF b /\ ~good THEN [batch EXCEPT !.bad = TRUE] ELSE batch)
          /\ stuck' = (stuck \/ (b /\ ~good))
  /\ UNCHANGED <<shown, approved, opens>>

\* a transaction counts when it is committed (MySQL commits each statement by itself)
Tx == /\ At("tx") /\ Step
      /\ LET mine == {x \in tx : x.conn = E.conn} IN
         /\ tx' = (CASE E.s = "begin" /\ Tr.d \in {"postgres", "cockroachdb"} -> tx \cup {[conn |-> E.conn, did |-> {}]}
                     [] OTHER -> tx \ mine)
         /\ acc' = (IF E.s = "commit" THEN acc \cup UNION {x.did : x \in mine} ELSE acc)
         \* what is buffered on a connection that is closed is gone
         /\ inb' = (IF E.s = "close" /\ batch.conn = E.conn THEN {} ELSE inb)
         /\ batch' = (IF E.s = "close" /\ batch.conn = E.conn /\ batch.st = "open" THEN [batch EXCEPT !.st = "over"] ELSE batch)
      /\ Rej({})
      /\ UNCHANGED <<shown, approved, nxt, att, last, gain, opens, stuck>>

End == /\ At("end")
       /\ LET did == acc = 1..N
              undone == {i \in 1..N : i \notin acc} IN
          Rej(If(E.hang, "C09", "does not end")
              \cup If(~E.hang /\ N = 0 /\ E.rc # 0, "C09", "fails although there is no difference")
              \cup (IF E.hang \/ N = 0 THEN {}
                    ELSE IF ~approved THEN If(E.rc = 0, "C08", "succeeds without approval")
                    ELSE If(E.rc = 0 /\ ~did, "C09", "succeeds although a statement did not take effect: " \o W[CHOOSE i \in undone : TRUE])
                         \cup If(E.rc # 0 /\ did, "C09", "fails although every statement took effect")
                         \cup If(opens /\ ~stuck /\ nxt <= N, "C07", "does not send a displayed statement")
                         \cup If(Tr.d = "spanner" /\ opens /\ ~stuck /\ nxt > N /\ batch.st # "over", "C09", "does not run the batch")
                         \cup If(opens /\ Retrying /\ (\E i \in undone : att[i] = 1), "C09", "does not retry a refused statement")
                         \cup If(opens /\ Retrying /\ (\E i \in undone : att[i] > 1 /\ att[i] <= N /\ last[i] < gain), "C09", "gives up a statement though others have been accepted since")))
       /\ PrintT("VERDICT|" \o ToString(Tr.id) \o "|" \o ToString(nrej'))
       /\ ph' = "done" /\ UNCHANGED <<tid, pos, shown, approved, nxt, att, acc, last, gain, batch, inb, tx, opens, stuck>>
Next == Open \/ Shown \/ Ans \/ SendControl \/ Send \/ Tx \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
