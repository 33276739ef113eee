---------------------------- MODULE CommandTrace ----------------------------
(* Validation of recorded runs of the real command against CommandRules.      *)
(* A trace: the command line c, the exit status rc, crash, got (the settings  *)
(* [d, col, ddl, pk] under which the outcome observed is the right one for    *)
(* these arguments; the right outcomes are computed from the parsers, the     *)
(* differs and the sources themselves), quiet (nothing on standard output),   *)
(* opened ([drv, arg]: driver and number of the argument, 0 for none), drv    *)
(* (the driver of the dialects main and other), sent (number of statements),  *)
(* empty (the settings under which there is nothing to send), shown (apply    *)
(* displayed a difference), touched (the destination is not as it was).       *)
EXTENDS CommandRules, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, ph
Tr == Traces[tid]
C == Tr.c
Report(why) == PrintT("REJECT|" \o ToString(Tr.id) \o "|C12|0|" \o why)
Range(s) == {s[i] : i \in 1..Len(s)}
Bad(b, why) == b => Report(why)
Init == tid \in 1..Len(Traces) /\ ph = "run"
Args == {i \in 1..Len(C.args) : Opened(C.args[i])}
Validate ==
  /\ ph = "run" /\ ph' = "done" /\ UNCHANGED tid
  /\ LET refuse == ~Usable(C)
         ops == Range(Tr.opened)
         right == Key(C) \in Range(Tr.got)
         e == Eff(C, "dialect") IN
     /\ Bad(Tr.crash, "the command crashes or does not end")
     /\ Bad(refuse /\ Tr.rc = 0, "succeeds with " \o ToString(C.args) \o ", dialect " \o e \o ", language " \o Eff(C, "lang"))
     /\ Bad(Tr.rc # 0 /\ C.cmd # "apply" /\ ~Tr.quiet, "fails and prints a part of a result")
     /\ Bad(Tr.rc # 0 /\ Tr.touched, "fails and changes the destination")
     /\ Bad(refuse /\ Tr.sent > 0, "sends statements though it is to be refused")
     /\ Bad(Tr.sent > 0 /\ ~(C.cmd = "apply" /\ Approved(C)), "sends statements that were not approved")
     /\ Bad(~refuse /\ ~(Free(C) /\ Tr.rc # 0) /\ ~right, "the outcome is not that of the settings " \o ToString(Key(C)) \o " but of " \o ToString(Range(Tr.got)))
     /\ Bad(~refuse /\ right /\ C.cmd = "apply" /\ Approved(C) /\ Tr.rc # 0 /\ Tr.shown, "fails though every statement was accepted")
     /\ Bad(~refuse /\ Tr.rc = 0 /\ C.cmd = "apply" /\ Approved(C) /\ Tr.sent = 0 /\ Key(C) \notin Range(Tr.empty), "approved statements are not sent")
     /\ Bad(\E o \in ops : o.arg \notin Args, "opens a database that is none of its arguments")
     /\ Bad(C.cmd = "generate" /\ ops # {}, "generate opens a database")
     /\ Bad(e \in KnownDialects /\ \E o \in ops : o.drv # Tr.drv[e], "opens a database with the driver of another dialect: " \o ToString(ops))
     /\ Bad(Tr.rc = 0 /\ C.cmd # "generate" /\ {o.arg : o \in ops} # Args, "does not open each of its databases")
  /\ PrintT("VERDICT|" \o ToString(Tr.id) \o "|0")
Spec == Init /\ [][Validate]_<<tid, ph>>
=============================================================================
