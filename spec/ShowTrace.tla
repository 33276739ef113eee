------------------------------ MODULE ShowTrace ------------------------------
(* Validation of what 'ddlctl show' printed for a database.  A trace: d, the  *)
(* declarations the database holds (after), the failure that was injected     *)
(* (fault) and whether it was met (hit), the exit status, printed (anything   *)
(* on standard output), parsed (the tool's parser accepts it), events: the    *)
(* statements read from the output, executed as Catalog steps.                *)
EXTENDS DiffTrace

Bad(why) == Report("C11", 0, why)
Orders(evs) == {<<evs[i].t, evs[i].order>> : i \in {j \in 1..Len(evs) : evs[j].e = "CreateTable"}}
ShowStart ==
  /\ ph = "start"
  /\ LET must == Tr.hit
         b1 == must /\ Tr.rc = 0
         b2 == Tr.rc # 0 /\ Tr.printed
         b3 == ~must /\ Tr.rc # 0
         b4 == Tr.rc = 0 /\ ~Tr.parsed
         b5 == Tr.rc = 0 /\ Orders(Tr.events) # Orders(Tr.after) IN
     /\ (b1 => Bad("succeeds although " \o Tr.fault \o " failed"))
     /\ (b2 => Bad("prints a part of the schema although it fails"))
     /\ (b3 => Bad("fails although every query was answered"))
     /\ (~must /\ b4 => Bad("what is shown cannot be parsed"))
     /\ (~must /\ ~b4 /\ b5 => Bad("tables or the order of their columns: " \o ToString(Orders(Tr.events)) \o " instead of " \o ToString(Orders(Tr.after))))
     /\ (~WF(D, AfterCat) => Report("BADSCENARIO", 0, "not well-formed"))
     /\ IF Tr.rc # 0 \/ must \/ b4
        THEN ph' = "done" /\ PrintT("VERDICT|" \o ToString(Tr.id) \o "|0")
        ELSE ph' = "run"
  /\ UNCHANGED <<tid, cat, todo, pend, prog, nrej>>
\* what is shown declares a schema whatever the order of its statements: what cannot be executed yet waits
Later == /\ ph = "run" /\ todo # <<>> /\ Why(D, cat, Ev(Head(todo))) # ""
         /\ pend' = Append(pend, Head(todo)) /\ todo' = Tail(todo)
         /\ UNCHANGED <<tid, cat, prog, ph, nrej>>
ShowFinish ==
  /\ ph = "run" /\ todo = <<>> /\ pend = <<>>
  /\ LET m == Mismatch(BeforeCat, cat, AfterCat) IN
     /\ (m # "" => Bad(m))
     /\ PrintT("VERDICT|" \o ToString(Tr.id) \o "|" \o ToString(nrej))
  /\ ph' = "done" /\ UNCHANGED <<tid, cat, todo, pend, prog, nrej>>
ShowNext == ShowStart \/ Exec \/ Later \/ NextPass \/ ShowFinish
ShowSpec == Init /\ [][ShowNext]_vars
=============================================================================
