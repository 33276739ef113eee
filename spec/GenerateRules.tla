--------------------------- MODULE GenerateRules ---------------------------
(* What DDL an annotated Go source declares.                                  *)
(* A source is a sequence of files [skip, decls]; a declaration is            *)
(*   [kind, name, lines, after, fields]: kind "struct", "type" (a type that   *)
(*     is no struct) or "func"; lines are those of the comments before it,    *)
(*     after those of the comment that follows it                             *)
(*   line [k, text]: k is what the line is under the configured tag: table    *)
(*     cons opt index, "bare" (the tag alone), "gap" (an empty line between   *)
(*     comments), "prose" or "foreign" (annotations under another tag)        *)
(*   field [names, col, coln, def, deft, pk]: col is the column tag ("name",  *)
(*     "none", "-"), def the definition tag ("def", "none", "-"), pk the      *)
(*     primary key tag ("true", "1", "false", "-", "none")                    *)
EXTENDS Naturals, Sequences, FiniteSets

RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Map(s, F(_)) == [i \in 1..Len(s) |-> F(s[i])]
Of(lines, k) == SelectSeq(lines, LAMBDA l : l.k = k)
Texts(lines) == Map(lines, LAMBDA l : l.text)

Annotation(l) == l.k \in {"table", "cons", "opt", "index", "bare"}
AllLines(x) == x.lines \o x.after
Annotated(x) == \E i \in 1..Len(AllLines(x)) : Annotation(AllLines(x)[i])
HasColumns(f) == f.def = "def" /\ f.col # "-"
ColName(f, n) == IF f.col = "name" THEN f.coln ELSE n
Columns(x) == Flat(Map(SelectSeq(x.fields, HasColumns), LAMBDA f : Map(f.names, LAMBDA n : [name |-> ColName(f, n), def |-> f.deft])))
Key(x) == Flat(Map(SelectSeq(x.fields, LAMBDA f : HasColumns(f) /\ f.pk \in {"true", "1"}), LAMBDA f : Map(f.names, LAMBDA n : ColName(f, n))))
HasTable(x) == x.kind = "struct" /\ Annotated(x) /\ Columns(x) # <<>>

\* the name of the table: as annotated, else that of the struct
TableHead(x) == LET t == Of(AllLines(x), "table") IN IF t = <<>> THEN x.name ELSE t[1].text
Table(x) == [k |-> "table", head |-> TableHead(x), cols |-> Columns(x), key |-> Key(x),
             cons |-> Texts(Of(AllLines(x), "cons")), opts |-> Texts(Of(AllLines(x), "opt"))]
Index(l) == [k |-> "index", head |-> l.text, cols |-> <<>>, key |-> <<>>, cons |-> <<>>, opts |-> <<>>]
Indexes(x) == Map(Of(AllLines(x), "index"), Index)

\* the statements of a declaration, in source order; the table stands at the first annotation
Statements(x) == IF HasTable(x) THEN <<Table(x)>> \o Indexes(x) ELSE Indexes(x)
FileStatements(f) == IF f.skip THEN <<>> ELSE Flat(Map(f.decls, Statements))
AnyAnnotation(f) == \E i \in 1..Len(f.decls) : Annotated(f.decls[i])
=============================================================================
