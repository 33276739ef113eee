---------------------------- MODULE CommandRules ----------------------------
(* What a command line selects: the effective value of every setting, the     *)
(* source of every argument, and whether the command can be carried out (C12).*)
(*   c.cmd   generate, show, diff, apply                                      *)
(*   c.args  the kind of each argument, in order                              *)
(*   c.set   setting -> [opt, env], "" where it is not given                  *)
(*   c.ans   what the user answers when apply asks                            *)
EXTENDS Naturals, Sequences, FiniteSets

Settings == {"dialect", "lang", "col", "ddl", "pk", "auto"}
Commands == {"generate", "show", "diff", "apply"}
Default(s) == CASE s = "dialect" -> "none" [] s = "lang" -> "go" [] s = "auto" -> "false" [] OTHER -> "std"
Takes(cmd, s) == CASE s = "dialect" -> TRUE [] s = "auto" -> cmd = "apply" [] OTHER -> cmd # "show"
\* the option wins over the environment, the environment over the default
Eff(c, s) == IF c.set[s].opt # "" THEN c.set[s].opt ELSE IF c.set[s].env # "" THEN c.set[s].env ELSE Default(s)

Arity(cmd) == IF cmd = "show" THEN 1 ELSE 2
\* kinds of argument in each place
DDLSource == {"file", "dir", "dsn", "missing", "badfile", "baddir"}
Places(cmd) == CASE cmd = "generate" -> <<{"dir", "gofile", "missing", "badfile", "baddir"}, {"new", "old", "into", "noparent"}>>
                 [] cmd = "show" -> <<{"dsn", "missing"}>>
                 [] cmd = "diff" -> <<DDLSource, DDLSource>>
                 [] cmd = "apply" -> <<{"dsn", "missing"}, DDLSource>>
Broken == {"missing", "badfile", "baddir", "noparent"}
\* sources that are opened as a database, and those that are generated from
Opened(k) == k \in {"dsn", "missing"}
FromCode(k) == k \in {"dir", "gofile", "baddir"}
NeedsLanguage(c) == c.cmd = "generate" \/ \E i \in 1..Len(c.args) : FromCode(c.args[i])
KnownDialects == {"main", "other"}

Usable(c) == /\ Len(c.args) = Arity(c.cmd)
             /\ Eff(c, "dialect") \in KnownDialects
             /\ (NeedsLanguage(c) => Eff(c, "lang") = "go")
             /\ (c.cmd = "apply" => Eff(c, "auto") # "bad")
             /\ \A i \in 1..Len(c.args) : c.args[i] \notin Broken
\* a value that is not understood in a setting that does not matter here
Free(c) == \/ ~NeedsLanguage(c) /\ Eff(c, "lang") # "go"
           \/ c.set["auto"].env = "bad" /\ (c.cmd # "apply" \/ c.set["auto"].opt # "")
Approved(c) == Eff(c, "auto") = "true" \/ c.ans = "yes"
Key(c) == [d |-> Eff(c, "dialect"), col |-> Eff(c, "col"), ddl |-> Eff(c, "ddl"), pk |-> Eff(c, "pk")]
=============================================================================
