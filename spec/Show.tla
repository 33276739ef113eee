-------------------------------- MODULE Show --------------------------------
(* 'ddlctl show': the connection, the catalog queries one by one (how many    *)
(* and about what depends on the dialect and on the objects of the database), *)
(* a failure at any of them - of the query itself or in the middle of its     *)
(* result - and what is printed.  Finished scenarios are printed for replay.  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

MaxTables == atoi(IOEnv.SHOW_TABLES)
MaxIndexes == atoi(IOEnv.SHOW_INDEXES)
Dialects == {"postgres", "cockroachdb", "mysql", "spanner"}

VARIABLES d, db, fault, ph, asked, left, known, out, rc
vars == <<d, db, fault, ph, asked, left, known, out, rc>>

\* objects: <<"T", i>> and <<"I", i, k>>; db[i] = number of indexes of table i
Tables == {<<"T", i>> : i \in 1..Len(db)}
Indexes == UNION {{<<"I", i, k>> : k \in 1..db[i]} : i \in 1..Len(db)}
Objects == Tables \cup Indexes
Faults == {[kind |-> "none", at |-> 0], [kind |-> "open", at |-> 0]}
          \cup [kind : {"query", "rows"}, at : 1..(1 + MaxTables * (5 + MaxIndexes))]

\* a query and the objects that are complete once it is answered
RECURSIVE FlatMap(_, _)
Q(name, objs) == <<[q |-> name, adds |-> objs]>>
PerTable(i) == CASE d = "mysql" -> Q("create", {<<"T", i>>} \cup {<<"I", i, k>> : k \in 1..db[i]})
                 [] d = "spanner" -> Q("columns", {}) \o Q("options", {}) \o Q("key", {}) \o Q("policy", {<<"T", i>>}) \o Q("indexes", {})
                                     \o [k \in 1..db[i] |-> [q |-> "index", adds |-> {<<"I", i, k>>}]]
FlatMap(i, n) == IF i > n THEN <<>> ELSE PerTable(i) \o FlatMap(i + 1, n)
Queries == CASE d = "postgres" -> Q("tables", Tables) \o Q("indexes", Indexes)
             [] d = "cockroachdb" -> Q("all", Objects)
             [] OTHER -> Q("names", {}) \o FlatMap(1, Len(db))

DBs == UNION {[1..n -> 0..MaxIndexes] : n \in 0..MaxTables}
Init == /\ d \in Dialects /\ db \in DBs /\ fault \in Faults
        /\ ph = "start" /\ asked = 0 /\ left = <<>> /\ known = {} /\ out = {} /\ rc = 0

Open == /\ ph = "start"
        /\ IF fault.kind = "open" THEN ph' = "failed" /\ left' = left ELSE ph' = "asking" /\ left' = Queries
        /\ UNCHANGED <<d, db, fault, asked, known, out, rc>>
Ask == /\ ph = "asking" /\ left # <<>>
       /\ asked' = asked + 1 /\ left' = Tail(left)
       /\ IF fault.kind \in {"query", "rows"} /\ fault.at = asked + 1
          THEN ph' = "failed" /\ known' = known
          ELSE ph' = ph /\ known' = known \cup Head(left).adds
       /\ UNCHANGED <<d, db, fault, out, rc>>
Answer == ph = "asking" /\ left = <<>> /\ out' = known /\ rc' = 0 /\ ph' = "done" /\ UNCHANGED <<d, db, fault, asked, left, known>>
Refuse == ph = "failed" /\ rc' = 1 /\ ph' = "done" /\ UNCHANGED <<d, db, fault, asked, left, known, out>>
Next == Open \/ Ask \/ Answer \/ Refuse
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* everything or nothing (C11)
NoPartial == out \in {{}, Objects}
SuccessIsAll == ph = "done" /\ rc = 0 => out = Objects
FailureIsSilent == rc # 0 => out = {}
FaultSeen == ph = "done" /\ rc = 0 => fault.kind # "open" /\ (fault.kind \in {"query", "rows"} => fault.at > asked)
Ends == <>(ph = "done")
Out == ph = "done" => PrintT("SCN|" \o ToJson([d |-> d, tables |-> Len(db), indexes |-> Cardinality(Indexes), kind |-> fault.kind, at |-> fault.at, rc |-> rc]))
=============================================================================
