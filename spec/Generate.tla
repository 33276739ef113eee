------------------------------ MODULE Generate ------------------------------
(* An author writes an annotated Go source: files, declarations, comment      *)
(* lines and fields, one step at a time.  Finished sources are printed; the   *)
(* invariants state what GenerateRules must declare for every source (C10).   *)
EXTENDS GenerateRules, TLC, Json, IOUtils

MaxFiles == atoi(IOEnv.GENERATE_FILES)
MaxDecls == atoi(IOEnv.GENERATE_DECLS)
MaxLines == atoi(IOEnv.GENERATE_LINES)
MaxFields == atoi(IOEnv.GENERATE_FIELDS)

VARIABLES files, decls, cur, done
vars == <<files, decls, cur, done>>

None == [kind |-> "", name |-> "", lines |-> <<>>, after |-> <<>>, fields |-> <<>>]
Init == files = <<>> /\ decls = <<>> /\ cur = None /\ done = FALSE

Name == "T" \o ToString(Len(files)) \o ToString(Len(decls))
Begin == /\ ~done /\ cur = None /\ Len(decls) < MaxDecls /\ Len(files) < MaxFiles
         /\ \E k \in {"struct", "type", "func"} : cur' = [None EXCEPT !.kind = k, !.name = Name]
         /\ UNCHANGED <<files, decls, done>>
Kinds == {"table", "cons", "opt", "index", "bare", "gap", "prose", "foreign"}
Line == /\ ~done /\ cur # None /\ cur.fields = <<>> /\ Len(cur.lines) < MaxLines
        /\ \E k \in Kinds :
             /\ (k = "table" => Of(cur.lines, "table") = <<>>)
             /\ (k = "gap" => cur.lines # <<>> /\ cur.lines[Len(cur.lines)].k # "gap")
             /\ cur' = [cur EXCEPT !.lines = Append(@, [k |-> k, text |-> cur.name \o k \o ToString(Len(@))])]
        /\ UNCHANGED <<files, decls, done>>
FieldKinds == [col : {"name", "none", "-"}, def : {"def", "none", "-"}, pk : {"true", "1", "false", "-", "none"}, n : {0, 1, 2}]
\* two names under one column tag would be one column twice
Sensible(f) == (f.n = 2 => f.col # "name") /\ (f.def # "def" => f.pk \in {"true", "none"}) /\ (f.n # 1 => f.pk # "1")
Field == /\ ~done /\ cur.kind = "struct" /\ Len(cur.fields) < MaxFields
         /\ \E f \in {g \in FieldKinds : Sensible(g)} :
              LET b == cur.name \o "f" \o ToString(Len(cur.fields)) IN
              cur' = [cur EXCEPT !.fields = Append(@, [names |-> IF f.n = 2 THEN <<b \o "a", b \o "b">> ELSE <<b>>, n |-> f.n, col |-> f.col,
                                                       coln |-> b \o "c", def |-> f.def, deft |-> b \o "d", pk |-> f.pk])]
         /\ UNCHANGED <<files, decls, done>>
End == /\ ~done /\ cur # None /\ (cur.kind = "struct" => cur.fields # <<>>)
       /\ \E a \in {FALSE, TRUE} :
            /\ (a => cur.kind = "struct" /\ Annotated(cur))
            /\ decls' = Append(decls, IF a THEN [cur EXCEPT !.after = <<[k |-> "index", text |-> cur.name \o "after"]>>] ELSE cur)
       /\ cur' = None /\ UNCHANGED <<files, done>>
Close == /\ ~done /\ cur = None /\ decls # <<>> /\ Len(files) < MaxFiles
         /\ \E s \in {FALSE, TRUE} : files' = Append(files, [skip |-> s, decls |-> decls])
         /\ decls' = <<>> /\ UNCHANGED <<cur, done>>
Finish == ~done /\ cur = None /\ decls = <<>> /\ files # <<>> /\ done' = TRUE /\ UNCHANGED <<files, decls, cur>>
Next == Begin \/ Line \/ Field \/ End \/ Close \/ Finish
Spec == Init /\ [][Next]_vars

All == Flat(Map(files, FileStatements))
Read == SelectSeq(files, LAMBDA f : ~f.skip)
Structs == Flat(Map(Read, LAMBDA f : SelectSeq(f.decls, HasTable)))
Count(s, P(_)) == Len(SelectSeq(s, P))
\* one table per annotated struct, one index per annotation, every column of it, nothing twice
OneTableEach == Count(All, LAMBDA s : s.k = "table") = Len(Structs)
OneIndexEach == Count(All, LAMBDA s : s.k = "index") = Len(Flat(Map(Read, LAMBDA f : Flat(Map(f.decls, LAMBDA x : Of(AllLines(x), "index"))))))
NoTwice == \A i, j \in 1..Len(All) : i # j => All[i].head # All[j].head
KeysAreColumns == \A i \in 1..Len(All) : All[i].k = "table" =>
                    {All[i].key[n] : n \in 1..Len(All[i].key)} \subseteq {All[i].cols[n].name : n \in 1..Len(All[i].cols)}
Out == done => PrintT("SRC|" \o ToJson(files))
=============================================================================
