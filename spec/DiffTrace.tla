------------------------------ MODULE DiffTrace ------------------------------
(* Trace validation of computed differences (and of printed schemas) against  *)
(* Catalog.  Each trace: the statements that declare the old schema           *)
(* (before), those that declare the new one (after), and the statements the   *)
(* real code emitted (events).  TLC executes the emitted statements as        *)
(* Catalog steps from Run(before), retrying foreign-key ordering in passes    *)
(* where apply retries, and reports                                           *)
(*    C02  a statement that is not executable where it stands                 *)
(*    C04  a statement that touches what is the same in both schemas          *)
(*    C01  a final catalog that is not Run(after)                             *)
(*    C05  (kind = "print") a statement order / column order / text mismatch  *)
(*    C03  (kind = "same") two texts of one catalog that are told apart; the  *)
(*         specification itself confirms that the catalogs are one            *)
EXTENDS Catalog, Json, IOUtils, SequencesExt

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, cat, todo, pend, prog, ph, nrej
vars == <<tid, cat, todo, pend, prog, ph, nrej>>

Tr == Traces[tid]
D == Tr.d
Ev(i) == Tr.events[i]
IsFk(w) == Len(w) >= 3 /\ SubSeq(w, 1, 3) = "fk:"

Report(prop, pos, why) == PrintT("REJECT|" \o ToString(Tr.id) \o "|" \o prop \o "|" \o ToString(pos) \o "|" \o why)

RECURSIVE BadDecl(_, _, _)
BadDecl(d, c, evs) == IF evs = <<>> THEN "" ELSE LET w == Why(d, c, Head(evs)) IN
                      IF w # "" THEN w ELSE BadDecl(d, Do(d, c, Head(evs)), Tail(evs))

BeforeCat == Run(D, Tr.before)
AfterCat == Run(D, Tr.after)

(* ---------------------------------------------------------------- equality  *)
\* options: the counter is not part of the schema; removing an option is not expressible
OptKeys(o) == DOMAIN o \ {"AUTO_INCREMENT"}
ExpOpts(b, a, t) == IF t \in DOMAIN b.tables
  THEN [k \in OptKeys(b.tables[t].opts) \cup OptKeys(a.tables[t].opts) |->
          IF k \in DOMAIN a.tables[t].opts THEN a.tables[t].opts[k] ELSE b.tables[t].opts[k]]
  ELSE [k \in OptKeys(a.tables[t].opts) |-> a.tables[t].opts[k]]
GotOpts(c, t) == [k \in OptKeys(c.tables[t].opts) |-> c.tables[t].opts[k]]

ColMismatch(c, a, t) ==
  LET ct == c.tables[t].cols  at == a.tables[t].cols
      miss == DOMAIN at \ DOMAIN ct  extra == DOMAIN ct \ DOMAIN at
      dif == {x \in DOMAIN at \cap DOMAIN ct : at[x] # ct[x]} IN
  IF miss # {} THEN "missing columns " \o ToString(miss)
  ELSE IF extra # {} THEN "extra columns " \o ToString(extra)
  ELSE IF dif # {} THEN LET x == CHOOSE y \in dif : TRUE IN
       "column " \o x \o " is " \o ToString(ct[x]) \o " instead of " \o ToString(at[x]) ELSE ""
ConMismatch(c, a, t) ==
  LET ct == c.tables[t].cons  at == a.tables[t].cons
      miss == DOMAIN at \ DOMAIN ct  extra == DOMAIN ct \ DOMAIN at
      dif == {x \in DOMAIN at \cap DOMAIN ct : at[x] # ct[x]} IN
  IF miss # {} THEN "missing constraints " \o ToString(miss)
  ELSE IF extra # {} THEN "extra constraints " \o ToString(extra)
  ELSE IF dif # {} THEN LET x == CHOOSE y \in dif : TRUE IN
       "constraint " \o x \o " is " \o ToString(ct[x]) \o " instead of " \o ToString(at[x]) ELSE ""
TabMismatch(b, c, a, t) ==
  LET m1 == ColMismatch(c, a, t)  m2 == ConMismatch(c, a, t) IN
  IF m1 # "" THEN m1 ELSE IF m2 # "" THEN m2
  ELSE IF GotOpts(c, t) # ExpOpts(b, a, t) THEN "options are " \o ToString(GotOpts(c, t)) \o " instead of " \o ToString(ExpOpts(b, a, t))
  ELSE IF c.tables[t].ttl # a.tables[t].ttl THEN "row deletion policy"
  ELSE IF c.tables[t].il # a.tables[t].il THEN "interleaving" ELSE ""
Mismatch(b, c, a) ==
  LET miss == DOMAIN a.tables \ DOMAIN c.tables  extra == DOMAIN c.tables \ DOMAIN a.tables
      imiss == DOMAIN a.idx \ DOMAIN c.idx  iextra == DOMAIN c.idx \ DOMAIN a.idx
      dift == {t \in DOMAIN a.tables \cap DOMAIN c.tables : TabMismatch(b, c, a, t) # ""}
      difi == {i \in DOMAIN a.idx \cap DOMAIN c.idx : a.idx[i] # c.idx[i]} IN
  IF miss # {} THEN "missing tables " \o ToString(miss)
  ELSE IF extra # {} THEN "extra tables " \o ToString(extra)
  ELSE IF dift # {} THEN LET t == CHOOSE u \in dift : TRUE IN "table " \o t \o ": " \o TabMismatch(b, c, a, t)
  ELSE IF imiss # {} THEN "missing indexes " \o ToString(imiss)
  ELSE IF iextra # {} THEN "extra indexes " \o ToString(iextra)
  ELSE IF difi # {} THEN LET i == CHOOSE j \in difi : TRUE IN "index " \o i \o " is " \o ToString(c.idx[i]) \o " instead of " \o ToString(a.idx[i])
  ELSE ""

(* ---------------------------------------------------------- preservation    *)
Both(b, a, t) == t \in DOMAIN b.tables /\ t \in DOMAIN a.tables
PKRec(tab) == {tab.cons[n] : n \in PKsOf(tab)}
\* Spanner: a changed primary key or interleaving forces a rebuild of the table and of the tables interleaved in it
RECURSIVE Rebuilt(_, _, _, _)
Rebuilt(d, b, a, t) == d = "spanner" /\ Both(b, a, t) /\ (PKRec(b.tables[t]) # PKRec(a.tables[t]) \/ b.tables[t].il # a.tables[t].il
                                                        \/ (b.tables[t].il.parent # "" /\ Rebuilt(d, b, a, b.tables[t].il.parent)))
ColGone(b, a, t, c) == t \in DOMAIN a.tables /\ t \in DOMAIN b.tables /\ c \in DOMAIN b.tables[t].cols /\ c \notin DOMAIN a.tables[t].cols
ConSame(b, a, t, n) == n \in DOMAIN b.tables[t].cons /\ n \in DOMAIN a.tables[t].cons /\ b.tables[t].cons[n] = a.tables[t].cons[n]
\* a constraint must be rebuilt if the table it references is, or a covered column goes
MustRebuildCon(d, b, a, t, n) ==
  LET con == b.tables[t].cons[n] IN
  \/ con.kind = "FK" /\ Rebuilt(d, b, a, con.ref)
  \/ con.kind = "FK" /\ Both(b, a, con.ref) /\ PKRec(b.tables[con.ref]) # PKRec(a.tables[con.ref])
ColDiff(b, a, t, c) == ~(c \in DOMAIN b.tables[t].cols /\ c \in DOMAIN a.tables[t].cols /\ b.tables[t].cols[c] = a.tables[t].cols[c])
BCol(b, t, c) == b.tables[t].cols[c]

Touch(d, b, a, ev) ==      \* "" or what is wrongly touched
  CASE ev.e = "DropTable" -> IF Both(b, a, ev.t) /\ ~Rebuilt(d, b, a, ev.t) THEN "table " \o ev.t \o " is dropped but is in both schemas" ELSE ""
    [] ev.e = "CreateTable" -> IF Both(b, a, ev.t) /\ ~Rebuilt(d, b, a, ev.t) THEN "table " \o ev.t \o " is created but is in both schemas" ELSE ""
    [] ev.e \in {"CreateIndex", "DropIndex"} ->
         IF ev.n \in DOMAIN b.idx /\ ev.n \in DOMAIN a.idx /\ b.idx[ev.n] = a.idx[ev.n] /\ ~Rebuilt(d, b, a, b.idx[ev.n].t)
         THEN "index " \o ev.n \o " is rebuilt but unchanged" ELSE ""
    [] ev.e \in OnTable /\ ev.e # "RenameTable" ->
         IF ~Both(b, a, ev.t) THEN (IF ev.t \in DOMAIN b.tables \cup DOMAIN a.tables THEN "" ELSE "table " \o ev.t \o " is in neither schema")
         ELSE IF Rebuilt(d, b, a, ev.t) THEN ""
         ELSE CASE ev.e = "AddColumn" -> IF ev.c \in DOMAIN b.tables[ev.t].cols THEN "column " \o ev.c \o " is added but was there" ELSE ""
                [] ev.e = "DropColumn" -> IF ev.c \in DOMAIN a.tables[ev.t].cols THEN "column " \o ev.c \o " is dropped but stays" ELSE ""
                [] ev.e \in OnColumn /\ ~(ev.c \in DOMAIN b.tables[ev.t].cols /\ ev.c \in DOMAIN a.tables[ev.t].cols) -> "column " \o ev.c \o " is altered but not in both schemas"
                [] ev.e = "SetType" -> IF BCol(b, ev.t, ev.c).type = BCol(a, ev.t, ev.c).type THEN "type of column " \o ev.c \o " is the same" ELSE ""
                [] ev.e \in {"SetDefault", "DropDefault"} -> IF BCol(b, ev.t, ev.c).def = BCol(a, ev.t, ev.c).def THEN "default of column " \o ev.c \o " is the same" ELSE ""
                [] ev.e \in {"SetNotNull", "DropNotNull"} -> IF BCol(b, ev.t, ev.c).nn = BCol(a, ev.t, ev.c).nn THEN "nullability of column " \o ev.c \o " is the same" ELSE ""
                [] ev.e \in {"SetOptions", "DropOptions"} -> IF BCol(b, ev.t, ev.c).opts = BCol(a, ev.t, ev.c).opts THEN "options of column " \o ev.c \o " are the same" ELSE ""
                [] ev.e = "AlterColumnType" -> IF BCol(b, ev.t, ev.c).type = BCol(a, ev.t, ev.c).type /\ BCol(b, ev.t, ev.c).nn = BCol(a, ev.t, ev.c).nn
                                               THEN "type and nullability of column " \o ev.c \o " are the same" ELSE ""
                [] ev.e = "ModifyColumn" -> IF ~ColDiff(b, a, ev.t, ev.c) THEN "column " \o ev.c \o " is the same" ELSE ""
                [] ev.e = "DropConstraint" -> IF ConSame(b, a, ev.t, ev.n) /\ ~MustRebuildCon(d, b, a, ev.t, ev.n) THEN "constraint " \o ev.n \o " is unchanged" ELSE ""
                [] ev.e = "AddConstraint" -> LET n == NameOf(d, ev.tb, ev.con) IN
                     IF IsIndexCon(d, ev.con) THEN (IF n \in DOMAIN b.idx /\ n \in DOMAIN a.idx /\ b.idx[n] = a.idx[n] THEN "index " \o n \o " is unchanged" ELSE "")
                     ELSE IF ConSame(b, a, ev.t, n) /\ ~MustRebuildCon(d, b, a, ev.t, n) THEN "constraint " \o n \o " is unchanged" ELSE ""
                [] ev.e = "SetTableOption" -> IF ev.k \in DOMAIN b.tables[ev.t].opts /\ ev.k \in DOMAIN a.tables[ev.t].opts /\ b.tables[ev.t].opts[ev.k] = a.tables[ev.t].opts[ev.k]
                                              THEN "option " \o ev.k \o " is the same" ELSE ""
                [] ev.e \in {"AddTTL", "ReplaceTTL", "DropTTL"} -> IF b.tables[ev.t].ttl = a.tables[ev.t].ttl THEN "row deletion policy is the same" ELSE ""
                [] OTHER -> ""
    [] OTHER -> ""

(* ---------------------------------------------------------- print order     *)
Key(ev) == IF ev.e = "CreateTable" THEN <<"table", ev.t, ev.order, ev.ine>> ELSE IF ev.e = "CreateIndex" THEN <<"index", ev.n, ev.t, ev.ine>> ELSE <<ev.e>>
Keys(evs) == [i \in 1..Len(evs) |-> Key(evs[i])]

(* ---------------------------------------------------------- behaviour       *)
Init == /\ tid \in 1..Len(Traces)
        /\ cat = BeforeCat
        /\ todo = [i \in 1..Len(Tr.events) |-> i]
        /\ pend = <<>> /\ prog = FALSE /\ ph = "start" /\ nrej = 0

Start == /\ ph = "start"
         /\ LET b == BadDecl(D, EmptyCat, Tr.before)  a == BadDecl(D, EmptyCat, Tr.after) IN
            IF Tr.kind = "same" /\ BeforeCat # AfterCat
            THEN Report("BADSCENARIO", 0, "not one catalog: " \o Mismatch(BeforeCat, AfterCat, AfterCat)) /\ ph' = "done"
            \* (the order of the tables in a text is presentation)
            ELSE IF (Tr.kind # "same" /\ ((b # "" /\ ~IsFk(b)) \/ (a # "" /\ ~IsFk(a)))) \/ ~WF(D, BeforeCat) \/ ~WF(D, AfterCat)
            THEN /\ Report("BADSCENARIO", 0, b \o " / " \o a \o " wf " \o ToString(<<WF(D, BeforeCat), WF(D, AfterCat)>>)) /\ ph' = "done"
            ELSE ph' = "run"
         /\ UNCHANGED <<tid, cat, todo, pend, prog, nrej>>

\* one emitted statement is executed
Exec == /\ ph = "run" /\ todo # <<>> /\ Why(D, cat, Ev(Head(todo))) = ""
        /\ cat' = Do(D, cat, Ev(Head(todo)))
        /\ LET w == Touch(D, BeforeCat, AfterCat, Ev(Head(todo))) IN
           /\ (Quirk(D, Ev(Head(todo))) # "" => Report("KF", Head(todo), Quirk(D, Ev(Head(todo)))))
           /\ IF Tr.kind = "diff" /\ w # "" THEN Report("C04", Head(todo), w) /\ nrej' = nrej + 1 ELSE nrej' = nrej
        /\ todo' = Tail(todo) /\ prog' = TRUE
        /\ UNCHANGED <<tid, pend, ph>>
\* a statement blocked only by foreign-key order waits for the next pass
Defer == /\ ph = "run" /\ todo # <<>> /\ Why(D, cat, Ev(Head(todo))) # ""
         /\ IsFk(Why(D, cat, Ev(Head(todo)))) /\ (Retries(D) \/ Tr.kind \in {"print", "show"})
         /\ pend' = Append(pend, Head(todo)) /\ todo' = Tail(todo)
         /\ UNCHANGED <<tid, cat, prog, ph, nrej>>
\* any other statement that is not executable is a violation; go on without it
Refuse == /\ ph = "run" /\ todo # <<>>
          /\ LET w == Why(D, cat, Ev(Head(todo))) IN
             w # "" /\ ~(IsFk(w) /\ (Retries(D) \/ Tr.kind \in {"print", "show"})) /\ Report("C02", Head(todo), w)
          /\ todo' = Tail(todo) /\ nrej' = nrej + 1
          /\ UNCHANGED <<tid, cat, pend, prog, ph>>
NextPass == /\ ph = "run" /\ todo = <<>> /\ pend # <<>>
            /\ IF prog THEN todo' = pend /\ pend' = <<>> /\ prog' = FALSE /\ nrej' = nrej
               ELSE /\ Report("C02", Head(pend), "never executable: " \o Why(D, cat, Ev(Head(pend))))
                    /\ pend' = Tail(pend) /\ todo' = todo /\ prog' = prog /\ nrej' = nrej + 1
            /\ UNCHANGED <<tid, cat, ph>>
Finish == /\ ph = "run" /\ todo = <<>> /\ pend = <<>>
          /\ LET m == Mismatch(BeforeCat, cat, AfterCat)
                 o == Tr.kind = "print" /\ Keys(Tr.events) # Keys(Tr.after)
                 s == Tr.kind = "same" /\ (Len(Tr.events) > 0 \/ ~Tr.nodiff)
                 bad == (IF m # "" THEN 1 ELSE 0) + (IF o THEN 1 ELSE 0) + (IF s THEN 1 ELSE 0) IN
             /\ (s => Report("C03", Len(Tr.events), "a difference is reported between two texts of one catalog"))
             /\ (m # "" => Report(IF Tr.kind = "print" THEN "C05" ELSE "C01", Len(Tr.events), m))
             /\ (o => Report("C05", Len(Tr.events), "statement or column order: " \o ToString(Keys(Tr.events)) \o " instead of " \o ToString(Keys(Tr.after))))
             /\ nrej' = nrej + bad
             /\ PrintT("VERDICT|" \o ToString(Tr.id) \o "|" \o ToString(nrej + bad))
          /\ ph' = "done"
          /\ UNCHANGED <<tid, cat, todo, pend, prog>>

Next == Start \/ Exec \/ Defer \/ Refuse \/ NextPass \/ Finish
Spec == Init /\ [][Next]_vars

(* Invariants of the specification itself, checked at every catalog reached   *)
\* no executed prefix leaves dangling references behind
RefInt == \A t \in DOMAIN cat.tables :
   \A n \in DOMAIN cat.tables[t].cons : LET con == cat.tables[t].cons[n] IN
      con.kind \in {"PK", "UQ", "FK"} => Ran(con.cols) \subseteq DOMAIN cat.tables[t].cols
IdxInt == \A i \in DOMAIN cat.idx : cat.idx[i].t \in DOMAIN cat.tables /\ Ran(cat.idx[i].cols) \subseteq DOMAIN cat.tables[cat.idx[i].t].cols
=============================================================================
