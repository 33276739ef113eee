-------------------------------- MODULE Parse --------------------------------
(* What a schema text must contain.  A text is a sequence of tokens           *)
(* [k, v]: k = "w" word (v upper case), "q" quoted name, "s" string, "n"      *)
(* number, "p" prefixed string, "o" operator or punctuation, "bad" a quote    *)
(* that is never closed or a byte that begins no token.                       *)
(*                                                                            *)
(*   TextWhy(d, ts) = "" or the reason why the text MUST be refused: it is    *)
(*   cut off, lacks a required part, or contains a statement of an            *)
(*   unsupported kind.  (The grammar is three-valued: "" means that the       *)
(*   specification does not insist on either answer.)                         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

End == [k |-> "end", v |-> ""]
At(ts, i) == IF i >= 1 /\ i <= Len(ts) THEN ts[i] ELSE End
W(ts, i, x) == At(ts, i).k = "w" /\ At(ts, i).v = x
WIn(ts, i, S) == At(ts, i).k = "w" /\ At(ts, i).v \in S
O(ts, i, x) == At(ts, i).k = "o" /\ At(ts, i).v = x
\* (the tool reads digits and dots as parts of words, and takes a string for a name)
IsName(t) == t.k \in {"w", "q", "n", "s", "p"} \/ (t.k = "o" /\ t.v = ".")

(* ---------------------------------------------------------- statements      *)
RECURSIVE SplitAt(_, _, _, _)
SplitAt(ts, i, cur, out) ==      \* at every ";"
  IF i > Len(ts) THEN (IF cur = <<>> THEN out ELSE Append(out, cur))
  ELSE IF O(ts, i, ";") THEN SplitAt(ts, i + 1, <<>>, IF cur = <<>> THEN out ELSE Append(out, cur))
  ELSE SplitAt(ts, i + 1, Append(cur, ts[i]), out)
Statements(ts) == SplitAt(ts, 1, <<>>, <<>>)

(* ---------------------------------------------------------- parentheses     *)
RECURSIVE CloseFrom(_, _, _)
CloseFrom(ts, i, depth) ==       \* position of the parenthesis that closes, 0 if none
  IF i > Len(ts) THEN 0
  ELSE IF O(ts, i, "(") THEN CloseFrom(ts, i + 1, depth + 1)
  ELSE IF O(ts, i, ")") THEN (IF depth = 1 THEN i ELSE CloseFrom(ts, i + 1, depth - 1))
  ELSE CloseFrom(ts, i + 1, depth)
Close(ts, i) == CloseFrom(ts, i, 0)
RECURSIVE Balance(_, _, _)
Balance(ts, i, depth) == IF i > Len(ts) THEN depth = 0
                         ELSE IF O(ts, i, "(") THEN Balance(ts, i + 1, depth + 1)
                         ELSE IF O(ts, i, ")") THEN depth > 0 /\ Balance(ts, i + 1, depth - 1)
                         ELSE Balance(ts, i + 1, depth)

\* the ranges <<from, to>> of i..j between commas at depth 0 (an empty range has to < from)
RECURSIVE Ranges(_, _, _, _, _)
Ranges(ts, i, j, from, out) ==
  IF i > j THEN Append(out, <<from, j>>)
  ELSE IF O(ts, i, "(") THEN Ranges(ts, (IF Close(ts, i) = 0 THEN j ELSE Close(ts, i)) + 1, j, from, out)
  ELSE IF O(ts, i, ",") THEN Ranges(ts, i + 1, j, i + 1, Append(out, <<from, i - 1>>))
  ELSE Ranges(ts, i + 1, j, from, out)

First(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : x <= y
RECURSIVE FirstWhy(_)
FirstWhy(ws) == IF ws = <<>> THEN "" ELSE IF Head(ws) # "" THEN Head(ws) ELSE FirstWhy(Tail(ws))

(* ---------------------------------------------------------- parts           *)
\* a parenthesised list of names is needed at i
ListWhy(ts, i, what) ==
  IF ~O(ts, i, "(") THEN what \o ": list of columns missing"
  ELSE LET c == Close(ts, i)  rs == Ranges(ts, i + 1, c - 1, i + 1, <<>>) IN
       IF \E r \in 1..Len(rs) : rs[r][2] < rs[r][1] THEN what \o ": empty column in the list"
       ELSE ""
\* a non-empty parenthesised expression is needed at i
ExprWhy(ts, i, what) ==
  IF ~O(ts, i, "(") THEN what \o ": expression missing"
  ELSE IF Close(ts, i) = i + 1 THEN what \o ": empty expression" ELSE ""
After(ts, i) == IF O(ts, i, "(") THEN Close(ts, i) + 1 ELSE i

RefWhy(ts, i) ==                 \* REFERENCES at i
  IF ~IsName(At(ts, i + 1)) THEN "REFERENCES: table missing"
  ELSE IF O(ts, i + 2, "(") THEN ListWhy(ts, i + 2, "REFERENCES") ELSE ""

Attributes == {"NOT", "NULL", "PRIMARY", "UNIQUE", "REFERENCES", "CHECK", "CONSTRAINT", "DEFAULT"}

\* the word at i of a column definition (its last token is j)
AttrWhy(d, ts, i, j) ==
  CASE W(ts, i, "NOT") -> IF i + 1 <= j /\ WIn(ts, i + 1, {"NULL", "VISIBLE"}) THEN "" ELSE "NOT without NULL"
    [] W(ts, i, "DEFAULT") -> IF i + 1 > j \/ WIn(ts, i + 1, Attributes \ {"NULL"}) \/ O(ts, i + 1, ")") THEN "DEFAULT without a value"
                              ELSE IF O(ts, i + 1, "(") THEN ExprWhy(ts, i + 1, "DEFAULT") ELSE ""
    [] W(ts, i, "PRIMARY") -> IF i + 1 <= j /\ W(ts, i + 1, "KEY") THEN "" ELSE "PRIMARY without KEY"
    [] W(ts, i, "REFERENCES") -> IF i + 1 > j THEN "REFERENCES: table missing" ELSE RefWhy(ts, i)
    [] W(ts, i, "CHECK") -> IF i + 1 > j THEN "CHECK: expression missing" ELSE ExprWhy(ts, i + 1, "CHECK")
    [] W(ts, i, "ON") -> IF i + 2 <= j /\ WIn(ts, i + 1, {"DELETE", "UPDATE"}) /\ At(ts, i + 2).k = "w"
                         THEN (IF W(ts, i + 2, "NO") /\ ~W(ts, i + 3, "ACTION") THEN "NO without ACTION"
                               ELSE IF W(ts, i + 2, "SET") /\ ~WIn(ts, i + 3, {"NULL", "DEFAULT"}) THEN "ON .. SET without NULL" ELSE "")
                         ELSE "ON without an action"
    [] W(ts, i, "COLLATE") -> IF i + 1 <= j /\ IsName(At(ts, i + 1)) THEN "" ELSE "COLLATE without a value"
    [] W(ts, i, "COMMENT") -> IF i + 1 <= j /\ IsName(At(ts, i + 1)) THEN "" ELSE "COMMENT without a text"
    [] W(ts, i, "CONSTRAINT") -> IF i + 2 <= j /\ IsName(At(ts, i + 1)) THEN "" ELSE "CONSTRAINT without a name or a kind"
    [] W(ts, i, "OPTIONS") /\ d = "spanner" -> IF i + 1 > j THEN "OPTIONS missing" ELSE ExprWhy(ts, i + 1, "OPTIONS")
    [] W(ts, i, "AS") /\ d = "cockroachdb" -> IF i + 1 > j THEN "AS: expression missing" ELSE IF O(ts, i + 1, "(") THEN ExprWhy(ts, i + 1, "AS") ELSE ""
    [] W(ts, i, "SET") /\ W(ts, i - 1, "CHARACTER") -> IF i + 1 <= j /\ IsName(At(ts, i + 1)) THEN "" ELSE "CHARACTER SET without a value"
    [] OTHER -> ""
RECURSIVE AttrsWhy(_, _, _, _)
AttrsWhy(d, ts, i, j) ==
  IF i > j THEN ""
  ELSE IF O(ts, i, "(") THEN AttrsWhy(d, ts, Close(ts, i) + 1, j)
  ELSE LET w == AttrWhy(d, ts, i, j)
           \* what follows DEFAULT is a value, what follows COMMENT or COLLATE is no attribute
           skip == IF WIn(ts, i, {"DEFAULT", "COLLATE", "CONSTRAINT", "NOT"}) /\ ~O(ts, i + 1, "(") THEN 2 ELSE 1 IN
       IF w # "" THEN w ELSE AttrsWhy(d, ts, i + skip, j)

ColumnWhy(d, ts, a, b) ==
  CASE ~IsName(At(ts, a)) -> "a table element begins with neither a name nor a keyword"
    [] b = a \/ At(ts, a + 1).k # "w" \/ WIn(ts, a + 1, Attributes) -> "column without a type"
    [] O(ts, a + 2, "(") /\ a + 2 <= b /\ Close(ts, a + 2) = a + 3 -> "empty type arguments"
    [] d \in {"postgres", "cockroachdb"} /\ W(ts, a + 1, "DOUBLE") /\ ~(a + 2 <= b /\ W(ts, a + 2, "PRECISION")) -> "DOUBLE without PRECISION"
    [] d \in {"postgres", "cockroachdb"} /\ WIn(ts, a + 1, {"TIMESTAMP", "TIME"}) /\ a + 2 <= b /\ WIn(ts, a + 2, {"WITH", "WITHOUT"})
         /\ ~(a + 4 <= b /\ W(ts, a + 3, "TIME") /\ W(ts, a + 4, "ZONE")) -> "WITH or WITHOUT of a type without TIME ZONE"
    [] OTHER -> AttrsWhy(d, ts, a + 2, b)

ConstraintWords(d) == {"CONSTRAINT", "PRIMARY", "FOREIGN", "UNIQUE", "CHECK"} \cup (IF d = "mysql" THEN {"INDEX", "KEY"} ELSE IF d = "cockroachdb" THEN {"INDEX"} ELSE {})

\* a key or index word at i: [name] (list)
IndexWhy(ts, i, what) == IF O(ts, i, "(") THEN ListWhy(ts, i, what)
                         ELSE IF IsName(At(ts, i)) THEN ListWhy(ts, i + 1, what) ELSE what \o ": list of columns missing"
KindWhy(d, ts, i, b) ==
  CASE i > b -> "CONSTRAINT without a kind"
    [] W(ts, i, "PRIMARY") -> IF ~W(ts, i + 1, "KEY") THEN "PRIMARY without KEY" ELSE ListWhy(ts, i + 2, "PRIMARY KEY")
    [] W(ts, i, "FOREIGN") -> IF ~W(ts, i + 1, "KEY") THEN "FOREIGN without KEY"
         ELSE FirstWhy(<<ListWhy(ts, i + 2, "FOREIGN KEY"),
                         LET r == After(ts, i + 2) IN IF ~W(ts, r, "REFERENCES") \/ r > b THEN "FOREIGN KEY without REFERENCES" ELSE RefWhy(ts, r),
                         LET r == After(ts, After(ts, i + 2) + 2) IN AttrsWhy(d, ts, r, b)>>)
    [] W(ts, i, "UNIQUE") -> IF WIn(ts, i + 1, {"KEY", "INDEX"}) THEN IndexWhy(ts, i + 2, "UNIQUE") ELSE IndexWhy(ts, i + 1, "UNIQUE")
    [] W(ts, i, "CHECK") -> ExprWhy(ts, i + 1, "CHECK")
    [] WIn(ts, i, {"INDEX", "KEY"}) -> IndexWhy(ts, i + 1, "INDEX")
    [] OTHER -> "CONSTRAINT of an unsupported kind"
ConstraintWhy(d, ts, a, b) ==
  IF W(ts, a, "CONSTRAINT") THEN (IF IsName(At(ts, a + 1)) /\ a + 1 <= b THEN KindWhy(d, ts, a + 2, b) ELSE "CONSTRAINT without a name")
  ELSE KindWhy(d, ts, a, b)

ElementWhy(d, ts, a, b) ==
  IF b < a THEN "empty table element"
  ELSE IF WIn(ts, a, ConstraintWords(d)) THEN ConstraintWhy(d, ts, a, b) ELSE ColumnWhy(d, ts, a, b)

(* ---------------------------------------------------------- after the list  *)
\* ( OLDER_THAN ( column , INTERVAL n DAY ) ) is needed at i
PolicyWhy(ts, i) ==
  IF ExprWhy(ts, i, "ROW DELETION POLICY") # "" THEN ExprWhy(ts, i, "ROW DELETION POLICY")
  ELSE IF ~(W(ts, i + 1, "OLDER_THAN") /\ O(ts, i + 2, "(") /\ IsName(At(ts, i + 3)) /\ O(ts, i + 4, ",") /\ W(ts, i + 5, "INTERVAL")
            /\ IsName(At(ts, i + 6)) /\ W(ts, i + 7, "DAY") /\ O(ts, i + 8, ")") /\ O(ts, i + 9, ")"))
       THEN "ROW DELETION POLICY: incomplete condition" ELSE ""
RECURSIVE TailWhy(_, _, _)
TailWhy(d, ts, i) ==
  LET n == Len(ts) IN
  IF i > n THEN ""
  ELSE IF O(ts, i, "(") THEN TailWhy(d, ts, Close(ts, i) + 1)
  ELSE LET w ==
    CASE d = "spanner" /\ W(ts, i, "PRIMARY") -> IF ~W(ts, i + 1, "KEY") THEN "PRIMARY without KEY" ELSE IF ~O(ts, i + 2, "(") THEN "PRIMARY KEY: list of columns missing" ELSE ""
      [] d = "spanner" /\ W(ts, i, "INTERLEAVE") -> IF W(ts, i + 1, "IN") /\ W(ts, i + 2, "PARENT") /\ IsName(At(ts, i + 3)) THEN "" ELSE "INTERLEAVE without IN PARENT table"
      [] d = "spanner" /\ W(ts, i, "ROW") -> IF W(ts, i + 1, "DELETION") /\ W(ts, i + 2, "POLICY") THEN PolicyWhy(ts, i + 3) ELSE "ROW without DELETION POLICY"
      [] d = "spanner" /\ W(ts, i, "ON") -> IF W(ts, i + 1, "DELETE") /\ WIn(ts, i + 2, {"CASCADE", "NO"}) /\ (W(ts, i + 2, "NO") => W(ts, i + 3, "ACTION")) THEN "" ELSE "ON without DELETE action"
      [] d = "mysql" /\ WIn(ts, i, {"ENGINE", "CHARSET", "COLLATE", "COMMENT", "AUTO_INCREMENT"}) ->
           LET v == IF O(ts, i + 1, "=") THEN i + 2 ELSE i + 1 IN IF IsName(At(ts, v)) THEN "" ELSE "table option without a value"
      [] OTHER -> "" IN
    IF w # "" THEN w
    ELSE TailWhy(d, ts, i + (IF d = "spanner" /\ W(ts, i, "INTERLEAVE") THEN 4 ELSE IF d = "mysql" /\ O(ts, i + 1, "=") THEN 3 ELSE 1))

(* ---------------------------------------------------------- statements      *)
IfWhy(ts, i) == IF W(ts, i, "IF") /\ ~O(ts, i + 1, "(") /\ ~(W(ts, i + 1, "NOT") /\ W(ts, i + 2, "EXISTS")) THEN "IF without NOT EXISTS" ELSE ""
SkipIf(ts, i) == IF W(ts, i, "IF") /\ W(ts, i + 1, "NOT") /\ W(ts, i + 2, "EXISTS") THEN i + 3 ELSE i
\* the position after a possibly qualified name at i
RECURSIVE AfterName(_, _)
AfterName(ts, i) == IF O(ts, i + 1, ".") THEN AfterName(ts, i + 2) ELSE i + 1

TableWhy(d, ts, i0) ==
  LET i == SkipIf(ts, i0)  p == AfterName(ts, i) IN
  IF IfWhy(ts, i0) # "" THEN IfWhy(ts, i0)
  ELSE IF ~IsName(At(ts, i)) THEN "table name missing"
  ELSE IF ~O(ts, p, "(") THEN "list of columns missing"
  ELSE LET c == Close(ts, p)
           rs == Ranges(ts, p + 1, c - 1, p + 1, <<>>)
           \* (a trailing comma and a table without columns are tolerated)
           opt(k) == k = Len(rs) /\ rs[k][2] < rs[k][1]
           ws == [k \in 1..Len(rs) |-> IF opt(k) THEN "" ELSE ElementWhy(d, ts, rs[k][1], rs[k][2])] IN
       FirstWhy(Append(ws, TailWhy(d, ts, c + 1)))

IndexStmtWhy(d, ts, i0) ==
  LET i == SkipIf(ts, i0)  on == IF W(ts, i, "ON") /\ d \in {"postgres", "cockroachdb"} THEN i ELSE AfterName(ts, i)
      p == AfterName(ts, on + 1)
      l == IF W(ts, p, "USING") THEN p + 2 ELSE p IN
  IF IfWhy(ts, i0) # "" THEN IfWhy(ts, i0)
  ELSE IF ~IsName(At(ts, i)) THEN "index name missing"
  ELSE IF ~W(ts, on, "ON") THEN "ON missing"
  ELSE IF ~IsName(At(ts, on + 1)) THEN "table of the index missing"
  ELSE IF W(ts, p, "USING") /\ ~IsName(At(ts, p + 1)) THEN "USING without a method"
  ELSE ListWhy(ts, l, "index")

StmtWhy(d, ts) ==
  IF ~W(ts, 1, "CREATE") THEN "unsupported statement " \o At(ts, 1).v
  ELSE IF ~Balance(ts, 1, 0) THEN "unbalanced parentheses"
  ELSE IF W(ts, 2, "TABLE") THEN TableWhy(d, ts, 3)
  ELSE IF W(ts, 2, "INDEX") THEN IndexStmtWhy(d, ts, 3)
  ELSE IF W(ts, 2, "UNIQUE") /\ W(ts, 3, "INDEX") THEN IndexStmtWhy(d, ts, 4)
  ELSE "unsupported statement CREATE " \o At(ts, 2).v

TextWhy(d, ts) ==
  IF \E i \in 1..Len(ts) : ts[i].k = "bad" THEN "a quote that is never closed or a byte that begins no token"
  ELSE LET ss == Statements(ts) IN FirstWhy([k \in 1..Len(ss) |-> StmtWhy(d, ss[k])])
=============================================================================
