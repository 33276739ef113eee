------------------------------- MODULE Catalog -------------------------------
(* The catalog (schema) a database holds, and the effect and precondition of  *)
(* every DDL statement ddlctl can emit, per dialect.                          *)
(*                                                                            *)
(*   Why(d, cat, ev)  = "" when statement ev is executable on cat, else why   *)
(*                      not (a reason beginning with "fk:" is an ordering     *)
(*                      problem between tables connected by foreign keys)     *)
(*   Do(d, cat, ev)   = the catalog after executing ev                        *)
(*   Exec(ev)         = the action: guard Why, effect Do                      *)
(*                                                                            *)
(* Statements are records as produced by the SQL reader (tools/sql.py).       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Dialects == {"postgres", "cockroachdb", "mysql", "spanner"}

(* ------------------------------------------------------------- functions *)
EmptyFn == [x \in {} |-> x]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Ran(s) == {s[i] : i \in 1..Len(s)}
RECURSIVE JoinU(_)
JoinU(s) == IF Len(s) = 0 THEN "" ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o "_" \o JoinU(Tail(s))

EmptyCat == [tables |-> EmptyFn, idx |-> EmptyFn]

(* ------------------------------------------- dialect facts (databases')    *)
\* unique constraints and table-level INDEX/KEY are ordinary indexes
UniqueIsIndex(d) == d \in {"mysql", "cockroachdb"}
\* the primary key has no name of its own
AnonymousPK(d) == d \in {"mysql", "spanner"}
\* DDL is applied statement by statement and retried
Retries(d) == d \in {"mysql", "postgres", "cockroachdb"}

(* ------------------------------------------- default constraint names      *)
\* tb is the table's name without schema; cn a constraint record
DefaultName(d, tb, cn) ==
  CASE cn.kind = "PK" -> IF AnonymousPK(d) THEN "PRIMARY" ELSE tb \o "_pkey"
    [] cn.kind = "FK" -> tb \o "_" \o JoinU(cn.cols) \o "_fkey"
    [] cn.kind = "UQ" -> tb \o "_unique_" \o JoinU(cn.cols)
    [] cn.kind = "CK" -> IF cn.inline THEN tb \o "_" \o JoinU(cn.cols) \o "_check" ELSE tb \o (IF d \in {"postgres", "cockroachdb"} THEN "_check" ELSE "_chk")
    [] OTHER -> tb \o "_" \o JoinU(cn.cols) \o "_idx"
NameOf(d, tb, cn) == IF AnonymousPK(d) /\ cn.kind = "PK" THEN "PRIMARY"
                     ELSE IF cn.name = "" THEN DefaultName(d, tb, cn) ELSE cn.name

\* an unnamed CHECK takes the first free one of t_check, t_check1, t_check2, ..
RECURSIVE Unused(_, _, _)
Unused(taken, n, k) == LET x == IF k = 0 THEN n ELSE n \o ToString(k) IN IF x \in taken THEN Unused(taken, n, k + 1) ELSE x
NewName(d, tb, tab, cn) == IF cn.kind = "CK" /\ cn.name = "" THEN Unused(DOMAIN tab.cons, DefaultName(d, tb, cn), 0) ELSE NameOf(d, tb, cn)

ConRec(cn) == [kind |-> cn.kind, cols |-> IF cn.kind = "CK" THEN <<>> ELSE cn.cols,
               dirs |-> IF cn.kind = "CK" THEN <<>> ELSE cn.dirs, ref |-> cn.ref, refcols |-> cn.refcols,
               expr |-> cn.expr, on |-> cn.on, words |-> cn.words]
IsIndexCon(d, cn) == cn.kind = "IX" \/ (cn.kind = "UQ" /\ UniqueIsIndex(d))
IdxRec(t, cn) == [t |-> t, uq |-> cn.kind = "UQ", cols |-> cn.cols, dirs |-> cn.dirs, using |-> cn.using]

(* ------------------------------------------------------------ derived       *)
\* columns of its own table a constraint depends on
DepCols(tab, con) == IF con.kind = "CK" THEN Ran(con.words) \cap DOMAIN tab.cols ELSE Ran(con.cols)
PKsOf(tab) == {n \in DOMAIN tab.cons : tab.cons[n].kind = "PK"}
PKCols(tab) == UNION {Ran(tab.cons[n].cols) : n \in PKsOf(tab)}
IdxOn(cat, t) == {i \in DOMAIN cat.idx : cat.idx[i].t = t}
\* does some key of table t cover exactly the column set cs?
HasKey(d, cat, t, cs) ==
  \/ \E n \in DOMAIN cat.tables[t].cons : cat.tables[t].cons[n].kind \in {"PK", "UQ"} /\ Ran(cat.tables[t].cons[n].cols) = cs
  \/ \E i \in IdxOn(cat, t) : cat.idx[i].uq /\ Ran(cat.idx[i].cols) = cs
NeedsKey(d) == d \in {"postgres", "cockroachdb"}
\* foreign keys (as <<table, name>>) of tables other than t that reference t
FKsInto(cat, t) == {p \in UNION {{u} \X DOMAIN cat.tables[u].cons : u \in DOMAIN cat.tables} :
                      /\ cat.tables[p[1]].cons[p[2]].kind = "FK" /\ cat.tables[p[1]].cons[p[2]].ref = t}
Children(cat, t) == {u \in DOMAIN cat.tables : cat.tables[u].il.parent = t}

(* ------------------------------------------------------------ well-formed   *)
WFCon(d, cat, t, con) ==
  LET tab == cat.tables[t] IN
  /\ con.kind # "CK" => Ran(con.cols) \subseteq DOMAIN tab.cols
  /\ con.kind = "PK" => \A c \in Ran(con.cols) : tab.cols[c].nn
  /\ con.kind = "FK" => /\ con.ref \in DOMAIN cat.tables
                        /\ Ran(con.refcols) \subseteq DOMAIN cat.tables[con.ref].cols
                        /\ Len(con.refcols) = Len(con.cols)
                        /\ NeedsKey(d) => HasKey(d, cat, con.ref, Ran(con.refcols))
WF(d, cat) ==
  /\ \A t \in DOMAIN cat.tables :
       /\ cat.tables[t].cols # EmptyFn
       /\ Cardinality(PKsOf(cat.tables[t])) <= 1
       /\ \A n \in DOMAIN cat.tables[t].cons : WFCon(d, cat, t, cat.tables[t].cons[n])
       /\ cat.tables[t].il.parent # "" => cat.tables[t].il.parent \in DOMAIN cat.tables
  /\ \A i \in DOMAIN cat.idx :
       /\ cat.idx[i].t \in DOMAIN cat.tables
       /\ Ran(cat.idx[i].cols) \subseteq DOMAIN cat.tables[cat.idx[i].t].cols

(* ------------------------------------------------------------ guards        *)
WhyCon(d, cat, t, tb, cn, tab) ==   \* tab: the table as it will be
  LET n == NewName(d, tb, tab, cn) IN
  CASE IsIndexCon(d, cn) ->
         IF n \in DOMAIN cat.idx THEN "index " \o n \o " exists"
         ELSE IF ~(Ran(cn.cols) \subseteq DOMAIN tab.cols) THEN "index " \o n \o " on absent column" ELSE ""
    [] n \in DOMAIN tab.cons -> "constraint " \o n \o " exists"
    [] cn.kind = "PK" /\ PKsOf(tab) # {} -> "second primary key"
    [] cn.kind \in {"PK", "UQ", "FK"} /\ ~(Ran(cn.cols) \subseteq DOMAIN tab.cols) -> "constraint " \o n \o " on absent column"
    [] cn.kind = "FK" /\ cn.ref # t /\ cn.ref \notin DOMAIN cat.tables -> "fk: referenced table " \o cn.ref \o " absent"
    [] cn.kind = "FK" /\ Len(cn.refcols) # Len(cn.cols) -> "foreign key column count"
    [] cn.kind = "FK" /\ cn.ref # t /\ ~(Ran(cn.refcols) \subseteq DOMAIN cat.tables[cn.ref].cols) -> "fk: referenced column absent"
    [] cn.kind = "FK" /\ cn.ref # t /\ NeedsKey(d) /\ ~HasKey(d, cat, cn.ref, Ran(cn.refcols)) -> "fk: referenced key absent"
    [] OTHER -> ""

\* install constraint cn into table t of cat
InstallCon(d, cat, t, tb, cn) ==
  LET tab == cat.tables[t]
      n == NewName(d, tb, tab, cn)
      cols2 == IF cn.kind = "PK" /\ d # "spanner"
               THEN [c \in DOMAIN tab.cols |-> IF c \in Ran(cn.cols) THEN [tab.cols[c] EXCEPT !.nn = TRUE] ELSE tab.cols[c]]
               ELSE tab.cols
  IN IF IsIndexCon(d, cn) THEN [cat EXCEPT !.idx = Put(@, n, IdxRec(t, cn))]
     ELSE [cat EXCEPT !.tables = Put(@, t, [tab EXCEPT !.cons = Put(@, n, ConRec(cn)), !.cols = cols2])]

RECURSIVE InstallCons(_, _, _, _, _)
InstallCons(d, cat, t, tb, cs) == IF cs = <<>> THEN cat ELSE InstallCons(d, InstallCon(d, cat, t, tb, Head(cs)), t, tb, Tail(cs))

RECURSIVE WhyCons(_, _, _, _, _)
WhyCons(d, cat, t, tb, cs) ==       \* table t already present in cat
  IF cs = <<>> THEN ""
  ELSE LET w == WhyCon(d, cat, t, tb, Head(cs), cat.tables[t]) IN
       IF w # "" THEN w ELSE WhyCons(d, InstallCon(d, cat, t, tb, Head(cs)), t, tb, Tail(cs))

EmptyTab(ev) == [cols |-> ev.cols, cons |-> EmptyFn, opts |-> ev.opts, ttl |-> ev.ttl, il |-> ev.il]
BareCreate(cat, ev) == [cat EXCEPT !.tables = Put(@, ev.t, EmptyTab(ev))]

\* --- DROP COLUMN: what else goes, what stands in the way
ConsUsing(tab, c) == {n \in DOMAIN tab.cons : c \in DepCols(tab, tab.cons[n])}
IdxUsing(cat, t, c) == {i \in IdxOn(cat, t) : c \in Ran(cat.idx[i].cols)}
FKsOnCol(cat, t, c) == {p \in FKsInto(cat, t) : p[1] # t /\ c \in Ran(cat.tables[p[1]].cons[p[2]].refcols)}

WhyDropColumn(d, cat, t, c) ==
  LET tab == cat.tables[t] IN
  CASE FKsOnCol(cat, t, c) # {} -> "fk: column " \o c \o " is referenced"
    [] d = "spanner" /\ (ConsUsing(tab, c) # {} \/ IdxUsing(cat, t, c) # {}) -> "column " \o c \o " is used by a key, constraint or index"
    [] d = "mysql" /\ \E n \in ConsUsing(tab, c) : tab.cons[n].kind \in {"FK", "CK"} -> "column " \o c \o " is used by a constraint"
    [] DOMAIN tab.cols = {c} -> "last column"
    [] OTHER -> ""
\* MySQL shrinks keys and indexes; PostgreSQL and CockroachDB drop them
Shrink(rec, c) == LET keep == SelectSeq([i \in 1..Len(rec.cols) |-> i], LAMBDA i : rec.cols[i] # c)
                  IN [rec EXCEPT !.cols = [k \in 1..Len(keep) |-> rec.cols[keep[k]]], !.dirs = [k \in 1..Len(keep) |-> rec.dirs[keep[k]]]]
DoDropColumn(d, cat, t, c) ==
  LET tab == cat.tables[t]
      cons2 == IF d = "mysql"
               THEN LET s == [n \in DOMAIN tab.cons |-> IF n \in ConsUsing(tab, c) THEN Shrink(tab.cons[n], c) ELSE tab.cons[n]]
                    IN [n \in {m \in DOMAIN s : s[m].kind = "CK" \/ s[m].cols # <<>>} |-> s[n]]
               ELSE [n \in DOMAIN tab.cons \ ConsUsing(tab, c) |-> tab.cons[n]]
      idx2 == IF d = "mysql"
              THEN LET s == [i \in DOMAIN cat.idx |-> IF i \in IdxUsing(cat, t, c) THEN Shrink(cat.idx[i], c) ELSE cat.idx[i]]
                   IN [i \in {j \in DOMAIN s : s[j].cols # <<>>} |-> s[i]]
              ELSE [i \in DOMAIN cat.idx \ IdxUsing(cat, t, c) |-> cat.idx[i]]
  IN [tables |-> Put(cat.tables, t, [tab EXCEPT !.cols = Del(@, c), !.cons = cons2]), idx |-> idx2]

(* ----------------------------------------------------------- Why            *)
OnColumn == {"DropColumn", "SetType", "SetDefault", "DropDefault", "SetNotNull", "DropNotNull", "ModifyColumn", "AlterColumnType", "SetOptions", "DropOptions"}
OnTable == OnColumn \cup {"AddColumn", "AddConstraint", "DropConstraint", "SetTableOption", "AddTTL", "ReplaceTTL", "DropTTL", "RenameTable"}

Why(d, cat, ev) ==
  CASE ev.e = "Unreadable" -> "unreadable statement: " \o ev.why
    [] ev.e = "CreateTable" ->
         IF ev.t \in DOMAIN cat.tables THEN (IF ev.ine THEN "" ELSE "table " \o ev.t \o " exists")
         ELSE IF ev.cols = EmptyFn THEN "table without columns"
         ELSE IF ev.il.parent # "" /\ ev.il.parent \notin DOMAIN cat.tables THEN "fk: parent table absent"
         ELSE WhyCons(d, BareCreate(cat, ev), ev.t, ev.tb, ev.cons)
    [] ev.e = "DropTable" ->
         IF ev.t \notin DOMAIN cat.tables THEN (IF ev.ie THEN "" ELSE "table " \o ev.t \o " absent")
         ELSE IF \E p \in FKsInto(cat, ev.t) : p[1] # ev.t THEN "fk: table " \o ev.t \o " is referenced"
         ELSE IF Children(cat, ev.t) # {} THEN "table " \o ev.t \o " has interleaved tables"
         ELSE IF d = "spanner" /\ IdxOn(cat, ev.t) # {} THEN "table " \o ev.t \o " has indexes" ELSE ""
    [] ev.e = "CreateIndex" ->
         IF ev.n \in DOMAIN cat.idx THEN (IF ev.ine THEN "" ELSE "index " \o ev.n \o " exists")
         ELSE IF ev.t \notin DOMAIN cat.tables THEN "table " \o ev.t \o " absent"
         ELSE IF ~(Ran(ev.cols) \subseteq DOMAIN cat.tables[ev.t].cols) THEN "index column absent"
         ELSE IF ev.cols = <<>> THEN "index without columns" ELSE ""
    [] ev.e = "DropIndex" ->
         IF ev.n \notin DOMAIN cat.idx THEN (IF ev.ie THEN "" ELSE "index " \o ev.n \o " absent")
         ELSE IF ev.t # "" /\ cat.idx[ev.n].t # ev.t THEN "index " \o ev.n \o " is on another table" ELSE ""
    [] ev.e \in OnTable ->
         IF ev.t \notin DOMAIN cat.tables THEN "table " \o ev.t \o " absent"
         ELSE LET tab == cat.tables[ev.t] IN
         CASE ev.e \in OnColumn /\ ev.c \notin DOMAIN tab.cols -> IF ev.e = "DropColumn" /\ ev.ie THEN "" ELSE "column " \o ev.c \o " absent"
           [] ev.e = "AddColumn" -> IF ev.c \in DOMAIN tab.cols THEN (IF ev.ine THEN "" ELSE "column " \o ev.c \o " exists")
                                    ELSE WhyCons(d, [cat EXCEPT !.tables[ev.t].cols = Put(@, ev.c, ev.col)], ev.t, ev.tb, ev.cons)
           [] ev.e = "DropColumn" -> WhyDropColumn(d, cat, ev.t, ev.c)
           [] ev.e = "DropNotNull" /\ ev.c \in PKCols(tab) -> "column " \o ev.c \o " is in the primary key"
           [] ev.e \in {"ModifyColumn", "AlterColumnType"} /\ ~ev.col.nn /\ tab.cols[ev.c].nn /\ ev.c \in PKCols(tab) -> "column " \o ev.c \o " is in the primary key"
           [] ev.e = "AddConstraint" -> WhyCon(d, cat, ev.t, ev.tb, ev.con, tab)
           [] ev.e = "DropConstraint" ->
                IF ev.n \notin DOMAIN tab.cons
                THEN IF ev.ie THEN ""
                     ELSE IF UniqueIsIndex(d) /\ ev.n \in IdxOn(cat, ev.t) /\ d = "mysql" THEN ""
                     ELSE "constraint " \o ev.n \o " absent"
                ELSE IF d = "spanner" /\ tab.cons[ev.n].kind = "PK" THEN "primary key cannot be dropped"
                ELSE IF d = "mysql" /\ tab.cons[ev.n].kind = "PK" /\ ev.what = "CONSTRAINT" /\ ev.n # "PRIMARY" THEN "primary key has no name"
                ELSE IF /\ NeedsKey(d) /\ tab.cons[ev.n].kind \in {"PK", "UQ"}
                        /\ \E p \in FKsInto(cat, ev.t) : Ran(cat.tables[p[1]].cons[p[2]].refcols) = Ran(tab.cons[ev.n].cols)
                     THEN "fk: key " \o ev.n \o " is referenced"
                ELSE ""
           [] ev.e = "AddTTL" -> IF tab.ttl # "" THEN "row deletion policy exists" ELSE ""
           [] ev.e \in {"ReplaceTTL", "DropTTL"} -> IF tab.ttl = "" THEN "no row deletion policy" ELSE ""
           [] ev.e = "RenameTable" -> IF ev.to \in DOMAIN cat.tables THEN "table " \o ev.to \o " exists" ELSE ""
           [] OTHER -> ""
    [] OTHER -> "unknown event " \o ev.e

\* Statements the spec executes although the database would refuse their wording
\* (each is the key of an entry in known_findings.json).
Quirk(d, ev) == IF d = "mysql" /\ ev.e = "DropIndex" /\ ev.t = "" THEN "mysql-drop-index-without-table" ELSE ""

(* ------------------------------------------------------------ Do            *)
SetCol(cat, t, c, f(_)) == [cat EXCEPT !.tables[t].cols[c] = f(@)]

Rename(cat, t, to) ==
  LET tabs == [u \in (DOMAIN cat.tables \ {t}) \cup {to} |-> IF u = to THEN cat.tables[t] ELSE cat.tables[u]]
      fix(con) == IF con.kind = "FK" /\ con.ref = t THEN [con EXCEPT !.ref = to] ELSE con
      fixt(tab) == [tab EXCEPT !.cons = [n \in DOMAIN tab.cons |-> fix(tab.cons[n])], !.il = IF @.parent = t THEN [@ EXCEPT !.parent = to] ELSE @]
  IN [tables |-> [u \in DOMAIN tabs |-> fixt(tabs[u])],
      idx |-> [i \in DOMAIN cat.idx |-> IF cat.idx[i].t = t THEN [cat.idx[i] EXCEPT !.t = to] ELSE cat.idx[i]]]

Do(d, cat, ev) ==
  CASE ev.e = "CreateTable" -> IF ev.t \in DOMAIN cat.tables THEN cat ELSE InstallCons(d, BareCreate(cat, ev), ev.t, ev.tb, ev.cons)
    [] ev.e = "DropTable" -> [tables |-> Del(cat.tables, ev.t), idx |-> [i \in DOMAIN cat.idx \ IdxOn(cat, ev.t) |-> cat.idx[i]]]
    [] ev.e = "CreateIndex" -> IF ev.n \in DOMAIN cat.idx THEN cat
                               ELSE [cat EXCEPT !.idx = Put(@, ev.n, [t |-> ev.t, uq |-> ev.uq, cols |-> ev.cols, dirs |-> ev.dirs, using |-> ev.using])]
    [] ev.e = "DropIndex" -> [cat EXCEPT !.idx = Del(@, ev.n)]
    [] ev.e = "AddColumn" -> IF ev.c \in DOMAIN cat.tables[ev.t].cols THEN cat
                             ELSE InstallCons(d, [cat EXCEPT !.tables[ev.t].cols = Put(@, ev.c, ev.col)], ev.t, ev.tb, ev.cons)
    [] ev.e = "DropColumn" -> IF ev.c \in DOMAIN cat.tables[ev.t].cols THEN DoDropColumn(d, cat, ev.t, ev.c) ELSE cat
    [] ev.e = "SetType" -> [cat EXCEPT !.tables[ev.t].cols[ev.c].type = ev.type]
    [] ev.e = "SetDefault" -> [cat EXCEPT !.tables[ev.t].cols[ev.c].def = ev.def]
    [] ev.e = "DropDefault" -> [cat EXCEPT !.tables[ev.t].cols[ev.c].def = ""]
    [] ev.e = "SetNotNull" -> [cat EXCEPT !.tables[ev.t].cols[ev.c].nn = TRUE]
    [] ev.e = "DropNotNull" -> [cat EXCEPT !.tables[ev.t].cols[ev.c].nn = FALSE]
    [] ev.e = "ModifyColumn" -> [cat EXCEPT !.tables[ev.t].cols[ev.c] = ev.col]
    [] ev.e = "AlterColumnType" -> [cat EXCEPT !.tables[ev.t].cols[ev.c].type = ev.col.type, !.tables[ev.t].cols[ev.c].nn = ev.col.nn,
                                               !.tables[ev.t].cols[ev.c].def = IF ev.col.def = "" THEN @ ELSE ev.col.def]
    [] ev.e = "SetOptions" -> [cat EXCEPT !.tables[ev.t].cols[ev.c].opts = ev.opts]
    [] ev.e = "DropOptions" -> [cat EXCEPT !.tables[ev.t].cols[ev.c].opts = ""]
    [] ev.e = "AddConstraint" -> InstallCon(d, cat, ev.t, ev.tb, ev.con)
    [] ev.e = "DropConstraint" ->
         IF ev.n \in DOMAIN cat.tables[ev.t].cons THEN [cat EXCEPT !.tables[ev.t].cons = Del(@, ev.n)]
         ELSE IF UniqueIsIndex(d) THEN [cat EXCEPT !.idx = Del(@, ev.n)] ELSE cat
    [] ev.e = "SetTableOption" -> [cat EXCEPT !.tables[ev.t].opts = Put(@, ev.k, ev.v)]
    [] ev.e \in {"AddTTL", "ReplaceTTL"} -> [cat EXCEPT !.tables[ev.t].ttl = ev.ttl]
    [] ev.e = "DropTTL" -> [cat EXCEPT !.tables[ev.t].ttl = ""]
    [] ev.e = "RenameTable" -> Rename(cat, ev.t, ev.to)

RECURSIVE RunFrom(_, _, _)
RunFrom(d, cat, evs) == IF evs = <<>> THEN cat ELSE RunFrom(d, Do(d, cat, Head(evs)), Tail(evs))
Run(d, evs) == RunFrom(d, EmptyCat, evs)
=============================================================================
