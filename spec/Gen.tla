--------------------------------- MODULE Gen ---------------------------------
(* Schema evolution: a base schema and the edits a user can make to it.       *)
(* TLC enumerates the reachable schemas; every well-formed one is printed and *)
(* becomes the other half of (base, schema) and (schema, base) comparisons.   *)
(* Types, defaults, expressions are symbolic (T1, D1, X1 ..): the harness     *)
(* instantiates them from dialect-specific pools (data independence).         *)
EXTENDS Catalog, Json, IOUtils

Dial == IOEnv.GEN_DIALECT
BaseNo == IOEnv.GEN_BASE          \* "1" .. "7"
MaxEdits == atoi(IOEnv.GEN_DEPTH)
Emit == IOEnv.GEN_EMIT            \* "all" (every state) or "last" (only at MaxEdits)

VARIABLES cat, n
vars == <<cat, n>>

TT == {"t1", "t2", "t3"}
CC == {"a", "b", "c", "e"}
My == Dial = "mysql"  Sp == Dial = "spanner"  Cr == Dial = "cockroachdb"  Pg == Dial = "postgres"

Col(ty, df, nn) == [type |-> ty, def |-> df, nn |-> nn, charset |-> "", collate |-> "", ai |-> FALSE, onup |-> "", comment |-> "", opts |-> "", gen |-> "", vis |-> ""]
Con(k, cs) == [kind |-> k, cols |-> cs, dirs |-> [i \in 1..Len(cs) |-> "ASC"], ref |-> "", refcols |-> <<>>, expr |-> "", on |-> <<>>, words |-> <<>>]
PK(cs) == Con("PK", cs)
UQ(cs) == Con("UQ", cs)
CK(x, c) == [Con("CK", <<>>) EXCEPT !.expr = x, !.words = <<c>>]
FK(cs, r, rc, on) == [Con("FK", cs) EXCEPT !.ref = r, !.refcols = rc, !.on = on]
Idx(t, uq, cs) == [t |-> t, uq |-> uq, cols |-> cs, dirs |-> [i \in 1..Len(cs) |-> "ASC"], using |-> ""]
Tab(cols, cons) == [cols |-> cols, cons |-> cons, opts |-> EmptyFn, ttl |-> "", il |-> [parent |-> "", act |-> ""]]

PKN(t) == IF AnonymousPK(Dial) THEN "PRIMARY" ELSE t \o "_pk"
UQs(f) == IF UniqueIsIndex(Dial) THEN EmptyFn ELSE f     \* unique constraints only where they are constraints
CanUQ == Pg

C1 == "a" :> Col("T1", "", TRUE) @@ "b" :> Col("T1", "D1", FALSE)
C2 == C1 @@ "c" :> Col("T2", "", TRUE)

If(b, v) == IF b THEN v ELSE ""

Base ==
  CASE BaseNo = "1" ->   \* one table, key and check
        [tables |-> "t1" :> Tab(C2, PKN("t1") :> PK(<<"a">>) @@ "t1_k1" :> CK("X1", "b")), idx |-> EmptyFn]
    [] BaseNo = "2" ->   \* two tables linked by a foreign key, one index
        [tables |-> "t1" :> Tab(C1, PKN("t1") :> PK(<<"a">>))
                 @@ "t2" :> Tab(C2, PKN("t2") :> PK(<<"a">>) @@ "t2_f1" :> FK(<<"c">>, "t1", <<"a">>, <<>>)),
         idx |-> "i1" :> Idx("t2", FALSE, <<"b">>)]
    [] BaseNo = "3" ->   \* composite key, unique, two indexes
        [tables |-> "t1" :> Tab([C2 EXCEPT !["b"] = Col("T1", "D1", TRUE)], PKN("t1") :> PK(<<"a", "b">>) @@ (IF CanUQ THEN "t1_u1" :> UQ(<<"b", "c">>) ELSE "t1_k1" :> CK("X1", "c"))),
         idx |-> "i1" :> Idx("t1", FALSE, <<"b", "c">>) @@ "i2" :> Idx("t1", TRUE, <<"c">>)]
    [] BaseNo = "4" ->   \* many tables
        [tables |-> "t1" :> Tab(C1, PKN("t1") :> PK(<<"a">>))
                 @@ "t2" :> Tab(C1, PKN("t2") :> PK(<<"a">>) @@ "t2_k1" :> CK("X1", "b"))
                 @@ "t3" :> Tab(C1, PKN("t3") :> PK(<<"a">>)),
         idx |-> "i1" :> Idx("t1", TRUE, <<"b">>) @@ "i2" :> Idx("t3", FALSE, <<"b">>)]
    [] BaseNo = "5" ->   \* a chain of foreign keys, one of them over two columns
        [tables |-> "t1" :> Tab([C1 EXCEPT !["b"] = Col("T1", "", TRUE)], PKN("t1") :> PK(<<"a", "b">>))
                 @@ "t2" :> Tab("a" :> Col("T1", "", TRUE) @@ "b" :> Col("T1", "", FALSE) @@ "c" :> Col("T1", "", FALSE),
                                PKN("t2") :> PK(<<"a">>) @@ "t2_f1" :> FK(<<"b", "c">>, "t1", <<"a", "b">>, <<>>))
                 @@ "t3" :> Tab(C1, PKN("t3") :> PK(<<"a">>) @@ "t3_f1" :> FK(<<"b">>, "t2", <<"a">>, <<"DELETE CASCADE">>)),
         idx |-> "i1" :> Idx("t2", FALSE, <<"b", "c">>) @@ "i2" :> Idx("t3", TRUE, <<"b">>)]
    [] BaseNo = "6" ->   \* everything the dialect knows is there, so that one edit changes or removes any of it
        [tables |-> "t1" :> [Tab("a" :> [Col("T1", "", TRUE) EXCEPT !.ai = My]
                              @@ "b" :> [Col("T1", "D1", FALSE) EXCEPT !.charset = If(My, "A1"), !.collate = If(My, "A1"), !.comment = If(My, "A1"), !.opts = If(Sp, "A1")]
                              @@ "c" :> [Col("T2", "D1", TRUE) EXCEPT !.comment = If(My, "A2"), !.onup = If(My, "A1")],
                              PKN("t1") :> PK(<<"a">>) @@ "t1_k1" :> CK("X1", "b") @@ "t1_k2" :> CK("X2", "c") @@ (IF CanUQ THEN "t1_u1" :> UQ(<<"b", "c">>) ELSE EmptyFn))
                             EXCEPT !.opts = IF My THEN [o \in {"ENGINE", "CHARSET", "COLLATE", "COMMENT"} |-> "O1"] ELSE EmptyFn, !.ttl = If(Sp, "L1")]
                 @@ "t2" :> [Tab("a" :> Col("T1", "", TRUE) @@ "b" :> Col("T1", "D1", TRUE) @@ "c" :> Col("T1", "", FALSE),
                                 PKN("t2") :> PK(<<"a", "b">>) @@ "t2_k1" :> CK("X1", "b") @@ "t2_f1" :> FK(<<"c">>, "t1", <<"a">>, IF Sp THEN <<"DELETE CASCADE">> ELSE <<"DELETE CASCADE", "UPDATE CASCADE">>))
                             EXCEPT !.il = IF Sp THEN [parent |-> "t1", act |-> "CASCADE"] ELSE @],
         idx |-> "i1" :> [Idx("t1", FALSE, <<"b", "c">>) EXCEPT !.using = IF Pg \/ Cr THEN "U1" ELSE "", !.dirs = <<"ASC", "DESC">>] @@ "i2" :> Idx("t2", TRUE, <<"c">>)]
    [] BaseNo = "7" ->   \* a table that references itself; Spanner: tables interleaved two deep, with an index
        [tables |-> "t1" :> Tab(C1, PKN("t1") :> PK(<<"a">>))
                 @@ "t2" :> [Tab(C2, PKN("t2") :> PK(<<"a">>) @@ "t2_f1" :> FK(<<"c">>, "t2", <<"a">>, <<>>)) EXCEPT !.il = IF Sp THEN [parent |-> "t1", act |-> "CASCADE"] ELSE @]
                 @@ "t3" :> [Tab(C1, PKN("t3") :> PK(<<"a">>)) EXCEPT !.il = IF Sp THEN [parent |-> "t2", act |-> ""] ELSE @],
         idx |-> "i1" :> Idx("t2", FALSE, <<"b">>) @@ "i2" :> Idx("t3", TRUE, <<"b">>)]

Init == cat = Base /\ n = 0

Has(t) == t \in DOMAIN cat.tables
HasC(t, c) == Has(t) /\ c \in DOMAIN cat.tables[t].cols
SetT(t, tab) == cat' = [cat EXCEPT !.tables = Put(@, t, tab)]
T(t) == cat.tables[t]
UpdC(t, c, col) == col # T(t).cols[c] /\ SetT(t, [T(t) EXCEPT !.cols = Put(@, c, col)])

(* ------------------------------------------------------------------- edits *)
AddTable(t) == /\ ~Has(t)
               /\ \E withfk \in BOOLEAN :
                  /\ withfk => Has("t1") /\ t # "t1"
                  /\ SetT(t, Tab(C1, PKN(t) :> PK(<<"a">>) @@ (IF withfk THEN (t \o "_f1") :> FK(<<"b">>, "t1", <<"a">>, <<>>) ELSE EmptyFn)))
DropTable(t) == Has(t) /\ cat' = [tables |-> Del(cat.tables, t), idx |-> [i \in DOMAIN cat.idx \ IdxOn(cat, t) |-> cat.idx[i]]]
AddCol(t, c) == Has(t) /\ ~HasC(t, c) /\ \E nn \in BOOLEAN, df \in {"", "D1"}, ty \in {"T1", "T3"} :
                   SetT(t, [T(t) EXCEPT !.cols = Put(@, c, Col(ty, df, nn))])
\* computed and invisible columns (CockroachDB)
AddGen(t, c) == Cr /\ Has(t) /\ ~HasC(t, c) /\ \E nn \in BOOLEAN, g \in {"", "G1", "G2"}, v \in {"", "NOT VISIBLE"} :
                   (g # "" \/ v # "") /\ SetT(t, [T(t) EXCEPT !.cols = Put(@, c, [Col("T1", "", nn) EXCEPT !.gen = g, !.vis = v])])
DropCol(t, c) == HasC(t, c) /\ Cardinality(DOMAIN T(t).cols) > 1 /\ SetT(t, [T(t) EXCEPT !.cols = Del(@, c)])
SetType(t, c) == HasC(t, c) /\ \E ty \in {"T1", "T2", "T3"} : UpdC(t, c, [T(t).cols[c] EXCEPT !.type = ty])
SetDef(t, c) == HasC(t, c) /\ \E df \in {"", "D1", "D2"} : UpdC(t, c, [T(t).cols[c] EXCEPT !.def = df])
FlipNN(t, c) == HasC(t, c) /\ UpdC(t, c, [T(t).cols[c] EXCEPT !.nn = ~@])
Attr(t, c) == HasC(t, c) /\
   \/ My /\ \E v \in {"", "A1", "A2"} : UpdC(t, c, [T(t).cols[c] EXCEPT !.charset = v])
   \/ My /\ \E v \in {"", "A1", "A2"} : UpdC(t, c, [T(t).cols[c] EXCEPT !.collate = v])
   \/ My /\ \E v \in {"", "A1", "A2"} : UpdC(t, c, [T(t).cols[c] EXCEPT !.comment = v])
   \/ My /\ UpdC(t, c, [T(t).cols[c] EXCEPT !.ai = ~@])
   \/ My /\ \E v \in {"", "A1"} : UpdC(t, c, [T(t).cols[c] EXCEPT !.onup = v])
   \/ Sp /\ \E v \in {"", "A1", "A2"} : UpdC(t, c, [T(t).cols[c] EXCEPT !.opts = v])
SetCon(t, k, con) == Has(t) /\ (IF k \in DOMAIN T(t).cons THEN T(t).cons[k] # con ELSE TRUE)
                     /\ SetT(t, [T(t) EXCEPT !.cons = Put(@, k, con)])
DelCon(t, k) == Has(t) /\ k \in DOMAIN T(t).cons /\ SetT(t, [T(t) EXCEPT !.cons = Del(@, k)])
EditPK(t) == \/ \E cs \in {<<"a">>, <<"b">>, <<"a", "b">>, <<"b", "a">>, <<"a", "c">>} : SetCon(t, PKN(t), PK(cs))
             \/ ~Sp /\ DelCon(t, PKN(t))
EditUQ(t) == CanUQ /\ \E k \in {t \o "_u1", t \o "_u2"} :
               \/ DelCon(t, k)
               \/ \E cs \in {<<"b">>, <<"c">>, <<"b", "c">>, <<"c", "b">>} : SetCon(t, k, UQ(cs))
\* (PostgreSQL: the tool accepts checks on columns only, so a check keeps its column's default name)
EditCK(t) == \E k \in {t \o "_k1", t \o "_k2"} :
               \/ DelCon(t, k)
               \/ \E x \in {"X1", "X2"}, c \in {"b", "c", "e"} : SetCon(t, k, CK(x, c))
EditFK(t) == \E k \in {t \o "_f1", t \o "_f2"} :
               \/ DelCon(t, k)
               \/ \E c \in {"b", "c"}, r \in TT, rc \in {<<"a">>, <<"b">>}, on \in {<<>>, <<"DELETE CASCADE">>} : SetCon(t, k, FK(<<c>>, r, rc, on))
               \/ \E cs \in {<<"b", "c">>, <<"c", "b">>}, r \in TT, rc \in {<<"a", "b">>, <<"b", "a">>} : SetCon(t, k, FK(cs, r, rc, <<>>))
\* only the referential actions of a foreign key
Actions == {<<>>, <<"DELETE CASCADE">>} \cup (IF Sp THEN {} ELSE {<<"UPDATE CASCADE">>, <<"DELETE CASCADE", "UPDATE CASCADE">>})
EditOn(t) == Has(t) /\ \E k \in {x \in DOMAIN T(t).cons : T(t).cons[x].kind = "FK"} : \E on \in Actions :
               on # T(t).cons[k].on /\ SetT(t, [T(t) EXCEPT !.cons[k].on = on])
EditIdx(i) == \/ i \in DOMAIN cat.idx /\ cat' = [cat EXCEPT !.idx = Del(@, i)]
              \/ \E t \in TT, uq \in BOOLEAN, cs \in {<<"b">>, <<"c">>, <<"b", "c">>, <<"e">>, <<"a", "e">>} :
                   Has(t) /\ (i \in DOMAIN cat.idx => cat.idx[i] # Idx(t, uq, cs)) /\ cat' = [cat EXCEPT !.idx = Put(@, i, Idx(t, uq, cs))]
\* access method of an index (PostgreSQL), hash sharding (CockroachDB)
EditUsing(i) == (Pg \/ Cr) /\ i \in DOMAIN cat.idx /\ \E u \in {"", "U1", "U2"} : u # cat.idx[i].using /\ cat' = [cat EXCEPT !.idx[i].using = u]
EditDesc(i) == i \in DOMAIN cat.idx /\ cat' = [cat EXCEPT !.idx[i].dirs = [@ EXCEPT ![Len(@)] = IF @ = "ASC" THEN "DESC" ELSE "ASC"]]
EditOpt(t) == /\ My /\ Has(t) /\ \E k \in {"ENGINE", "CHARSET", "COLLATE", "COMMENT"}, v \in {"O1", "O2"} :
                   (k \in DOMAIN T(t).opts => T(t).opts[k] # v) /\ SetT(t, [T(t) EXCEPT !.opts = Put(@, k, v)])
EditTTL(t) == Sp /\ Has(t) /\ \E v \in {"", "L1", "L2"} : v # T(t).ttl /\ SetT(t, [T(t) EXCEPT !.ttl = v])
EditIL(t) == Sp /\ Has(t) /\ \E p \in TT \cup {""}, act \in {"", "CASCADE", "NO ACTION"} :
               /\ p # t /\ (p = "" => act = "") /\ [parent |-> p, act |-> act] # T(t).il
               /\ SetT(t, [T(t) EXCEPT !.il = [parent |-> p, act |-> act]])

Edit == \/ \E t \in TT : \/ AddTable(t) \/ DropTable(t) \/ EditPK(t) \/ EditUQ(t) \/ EditCK(t) \/ EditFK(t) \/ EditOn(t) \/ EditOpt(t) \/ EditTTL(t) \/ EditIL(t)
                         \/ \E c \in CC : AddCol(t, c) \/ AddGen(t, c) \/ DropCol(t, c) \/ SetType(t, c) \/ SetDef(t, c) \/ FlipNN(t, c) \/ Attr(t, c)
        \/ \E i \in {"i1", "i2", "i3"} : EditIdx(i) \/ EditDesc(i) \/ EditUsing(i)

Next == n < MaxEdits /\ n' = n + 1 /\ Edit
Spec == Init /\ [][Next]_vars

(* ----------------------------------------------------- scenario validity     *)
RECURSIVE Reach(_, _)
Reach(S, k) == IF k = 0 THEN S ELSE Reach(S \cup {cat.tables[p].cons[x].ref : p \in S \cap DOMAIN cat.tables, x \in UNION {DOMAIN cat.tables[q].cons : q \in DOMAIN cat.tables}}, k - 1)
Refs(t) == {T(t).cons[x].ref : x \in {y \in DOMAIN T(t).cons : T(t).cons[y].kind = "FK" /\ T(t).cons[y].ref # t}} \cup ({T(t).il.parent} \ {""})
RECURSIVE Order(_, _)
Order(done, left) == left = {} \/ \E t \in left : Refs(t) \subseteq done /\ Order(done \cup {t}, left \ {t})
CheckCols(t) == \A k \in DOMAIN T(t).cons : T(t).cons[k].kind = "CK" => Ran(T(t).cons[k].words) \subseteq DOMAIN T(t).cols
\* foreign keys reference exactly the primary key (in every dialect), interleaving agrees with keys
RefPK(t) == \A k \in DOMAIN T(t).cons : T(t).cons[k].kind = "FK" =>
              T(t).cons[k].ref \in DOMAIN cat.tables /\ \E p \in PKsOf(T(T(t).cons[k].ref)) : T(T(t).cons[k].ref).cons[p].cols = T(t).cons[k].refcols
SpOK == Sp => \A t \in DOMAIN cat.tables : PKsOf(T(t)) # {}
Valid == cat.tables # EmptyFn /\ WF(Dial, cat) /\ (\A t \in DOMAIN cat.tables : CheckCols(t) /\ RefPK(t)) /\ Order({}, DOMAIN cat.tables) /\ SpOK

Out == (Emit = "all" \/ n = MaxEdits) /\ Valid => PrintT("CAT|" \o ToString(n) \o "|" \o ToJson(cat))
Emitted == Out
=============================================================================
