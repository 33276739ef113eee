------------------------------ MODULE Command ------------------------------
(* One run of ddlctl: a user writes a command line, the settings are loaded   *)
(* from defaults, environment and options in turn, the arguments are resolved *)
(* one after the other, and the command acts.  Finished runs are printed for  *)
(* replay on the real command (C12).                                          *)
EXTENDS CommandRules, TLC, Json, IOUtils

MaxGiven == atoi(IOEnv.COMMAND_GIVEN)           \* settings that are given in one command line
AnyCount == IOEnv.COMMAND_ANYCOUNT = "1"         \* also wrong numbers of arguments
Order == <<"dialect", "lang", "col", "ddl", "pk", "auto">>
Values(s) == CASE s = "dialect" -> {"main", "other", "unknown"} [] s = "lang" -> {"go", "unknown"} [] s = "auto" -> {"true", "false", "bad"} [] OTHER -> {"std", "x", "y"}
OptOnly(s) == IF s = "dialect" THEN {"empty"} ELSE {}

VARIABLES c, ph, n, val, opened, rest, shown, sent, dst, rc
vars == <<c, ph, n, val, opened, rest, shown, sent, dst, rc>>

Unset == [s \in Settings |-> [opt |-> "", env |-> ""]]
Init == /\ \E cmd \in Commands, a \in {"yes", "no", "eof"} :
              /\ (cmd # "apply" => a = "eof")
              /\ c = [cmd |-> cmd, args |-> <<>>, set |-> Unset, ans |-> a]
        /\ ph = "write" /\ n = 1 /\ val = [s \in Settings |-> "?"] /\ opened = {} /\ rest = 0 /\ shown = FALSE /\ sent = FALSE /\ dst = "before" /\ rc = 0

Given == Cardinality({s \in Settings : c.set[s] # [opt |-> "", env |-> ""]})
\* the user chooses a setting; an option only where the command has it
Give == /\ ph = "write" /\ n <= Len(Order)
        /\ LET s == Order[n] IN
           \E o \in Values(s) \cup OptOnly(s) \cup {""}, e \in Values(s) \cup {""} :
             /\ (o # "" => Takes(c.cmd, s))
             /\ (o # "" \/ e # "" => Given < MaxGiven \/ s = "dialect")
             /\ c' = [c EXCEPT !.set[s] = [opt |-> o, env |-> e]]
        /\ n' = n + 1 /\ UNCHANGED <<ph, val, opened, rest, shown, sent, dst, rc>>
Arg == /\ ph = "write" /\ n > Len(Order) /\ Len(c.args) < Arity(c.cmd) + (IF AnyCount THEN 1 ELSE 0)
       /\ \E k \in Places(c.cmd)[IF Len(c.args) < Arity(c.cmd) THEN Len(c.args) + 1 ELSE Arity(c.cmd)] :
             /\ (Len(c.args) = Arity(c.cmd) => k \notin Broken)
             /\ c' = [c EXCEPT !.args = Append(@, k)]
       /\ UNCHANGED <<ph, n, val, opened, rest, shown, sent, dst, rc>>
Run == /\ ph = "write" /\ n > Len(Order) /\ (AnyCount \/ Len(c.args) = Arity(c.cmd)) /\ ph' = "defaults" /\ UNCHANGED <<c, n, val, opened, rest, shown, sent, dst, rc>>

Fail == ph' = "done" /\ rc' = 1
Defaults == ph = "defaults" /\ val' = [s \in Settings |-> Default(s)] /\ ph' = "environment" /\ UNCHANGED <<c, n, opened, rest, shown, sent, dst, rc>>
Environment == ph = "environment" /\ val' = [s \in Settings |-> IF c.set[s].env # "" THEN c.set[s].env ELSE val[s]] /\ ph' = "options" /\ UNCHANGED <<c, n, opened, rest, shown, sent, dst, rc>>
Options == ph = "options" /\ val' = [s \in Settings |-> IF c.set[s].opt # "" THEN c.set[s].opt ELSE val[s]] /\ ph' = "check" /\ UNCHANGED <<c, n, opened, rest, shown, sent, dst, rc>>
Check == /\ ph = "check"
         /\ IF Len(c.args) # Arity(c.cmd) \/ (c.cmd = "apply" /\ val["auto"] = "bad") THEN Fail ELSE ph' = "resolve" /\ rc' = rc
         /\ rest' = 1 /\ UNCHANGED <<c, n, val, opened, shown, sent, dst>>
Sources == IF c.cmd = "generate" THEN 1 ELSE Arity(c.cmd)
Resolve == /\ ph = "resolve" /\ rest <= Sources
           /\ LET k == c.args[rest] IN
              /\ opened' = IF Opened(k) /\ c.cmd # "generate" /\ val["dialect"] \in KnownDialects THEN opened \cup {rest} ELSE opened
              /\ IF k \in Broken \/ (FromCode(k) /\ val["lang"] # "go") \/ val["dialect"] \notin KnownDialects THEN Fail /\ rest' = rest
                 ELSE ph' = ph /\ rc' = rc /\ rest' = rest + 1
           /\ UNCHANGED <<c, n, val, shown, sent, dst>>
Act == /\ ph = "resolve" /\ rest > Sources
       /\ CASE c.cmd = "generate" -> /\ (IF c.args[2] = "noparent" THEN Fail /\ dst' = dst ELSE ph' = "done" /\ rc' = 0 /\ dst' = "result")
                                     /\ UNCHANGED <<shown, sent>>
            [] c.cmd \in {"show", "diff"} -> shown' = TRUE /\ ph' = "done" /\ rc' = 0 /\ UNCHANGED <<sent, dst>>
            [] OTHER -> shown' = TRUE /\ sent' = (val["auto"] = "true" \/ c.ans = "yes") /\ ph' = "done" /\ rc' = (IF sent' THEN 0 ELSE 1) /\ UNCHANGED dst
       /\ UNCHANGED <<c, n, val, opened, rest>>
Next == Give \/ Arg \/ Run \/ Defaults \/ Environment \/ Options \/ Check \/ Resolve \/ Act
Spec == Init /\ [][Next]_vars /\ WF_vars(Run \/ Defaults \/ Environment \/ Options \/ Check \/ Resolve \/ Act)

Done == ph = "done"
Precedence == ph \notin {"write", "defaults", "environment", "options"} => \A s \in Settings : val[s] = Eff(c, s)
RefusedIsUntouched == Done /\ ~Usable(c) => rc # 0 /\ ~shown /\ ~sent /\ dst = "before"
UsableSucceeds == Done /\ Usable(c) => (rc = 0 <=> (c.cmd = "apply" => Approved(c))) /\ (shown \/ dst = "result")
OnlyApproved == sent => Approved(c) /\ c.cmd = "apply"
OnlyDatabasesOpened == opened \subseteq {i \in 1..Len(c.args) : Opened(c.args[i])} /\ (c.cmd = "generate" => opened = {})
SuccessOpensAll == Done /\ rc = 0 /\ c.cmd # "generate" => opened = {i \in 1..Len(c.args) : Opened(c.args[i])}
Ends == (ph = "defaults") ~> Done
Out == Done => PrintT("SCN|" \o ToJson([c |-> c, ok |-> Usable(c), free |-> Free(c)]))
=============================================================================
