#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run by hand; the .jsonl is committed)."""
import json, os
D = ["postgres", "cockroachdb", "mysql", "spanner"]
def f(*names): return ["pkg/ddl/%s/%s" % (d, n) for d in D for n in names]
P = []
def prop(id, title, statement, over, qtext, why, files, state, mech, obs):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
      why_tests_cant=why, anchors=dict(files=files, state=state, mechanism=mech, observe_at=obs, hook_needed=None)))

prop("C01", "Executing the computed difference turns the old schema into the new one",
 "For any two schemas of one dialect, executing the statements of the computed difference, in order, on a database that holds the first schema leaves a database that holds exactly the second: the same tables, columns with their type, nullability, default and other dialect attributes, constraints, table options and indexes. Nothing that differs between the two schemas is left unchanged and nothing else changes.",
 ["inputs", "histories"],
 "all pairs of well-formed schemas in each of the four dialects, related by any sequence of edits (tables, columns, types, defaults, nullability, keys, checks, indexes, options added, removed or changed). Outside the guarantee, as the tool documents by its own tests: column order, the MySQL AUTO_INCREMENT counter option, and removing a MySQL table option.",
 "The unit tests compare the printed diff with hand-written text for about forty fixed pairs; none executes the statements, and none combines several edits, so a pair whose diff misses, duplicates or misdirects an edit passes unseen.",
 f("diff.go", "diff_create_table.go", "ddl_table_alter.go"),
 [dict(name="catalog", meaning="tables, columns, constraints, options and indexes the database holds", where="spec/Catalog.tla: cat")],
 [dict(name="Diff / DiffCreateTable", where="pkg/ddl/*/diff.go, pkg/ddl/*/diff_create_table.go"), dict(name="ALTER statement printing", where="pkg/ddl/*/ddl_table_alter.go")],
 ["text printed by Diff(before, after).String() and by 'ddlctl diff'"])

prop("C02", "Every statement of a difference is executable at the point where it runs",
 "When the statements of a computed difference run in order on the old schema, each one is valid at that point: it creates only what does not exist yet and alters or drops only what exists, every column it mentions exists, and it does not remove something that a remaining object still needs. Only the order of foreign keys between different tables may instead be resolved by the retries of apply, in the dialects where apply retries.",
 ["inputs", "histories"],
 "all pairs of well-formed schemas in each dialect, every prefix of the emitted statement list.",
 "The tests never run the emitted statements and look at one edit at a time; ordering between edits (constraint before column, index before table, key before nullability) shows only when edits are combined.",
 f("diff.go", "diff_create_table.go"),
 [dict(name="catalog", meaning="the catalog reached after each prefix of the statements", where="spec/Catalog.tla")],
 [dict(name="statement order: drops, creates, alters", where="pkg/ddl/*/diff.go Diff"), dict(name="constraint and column order", where="pkg/ddl/*/diff_create_table.go DiffCreateTable")],
 ["text printed by Diff(before, after).String(), and by DiffCreateTable with its options"])

prop("C03", "Two texts of the same schema have no difference",
 "Two definitions of the same schema that differ only in presentation (letter case of keywords, white space, comments, identifier quoting where the dialect allows it, IF NOT EXISTS, the order of statements, type synonyms the dialect documents, the order of ON DELETE and ON UPDATE of a foreign key, or a constraint written on the column instead of on the table under its default name) are reported as having no difference. Comparing a schema with the result of applying its own difference also reports none.",
 ["inputs"],
 "all well-formed schemas and all presentation variants of them, in each dialect.",
 "Tests check the no-difference answer on a handful of literally identical or nearly identical texts; they do not vary presentation systematically.",
 f("diff.go", "ddl.go", "parser.go", "lexar.go"),
 [dict(name="two texts of one catalog", meaning="presentation classes", where="spec/Catalog.tla, tools/render.py")],
 [dict(name="StringForDiff comparison", where="pkg/ddl/*/ddl.go, ddl_table.go, ddl_table_create.go"), dict(name="keyword lookup and quoting", where="pkg/ddl/*/lexar.go")],
 ["ErrNoDifference from Diff; 'ddlctl diff' output"])

prop("C04", "A difference never touches what is the same in both schemas",
 "A computed difference drops, recreates or alters only objects that differ between the two schemas: a table present in both is never dropped and recreated, a column present in both never dropped and re-added, and an unchanged constraint, index, option or column attribute is not mentioned. The only exceptions are a Spanner table whose primary key or interleaving changes, which must be recreated with its indexes and the tables interleaved in it, and a constraint or index that must be rebuilt because a column it covers is.",
 ["inputs", "histories"],
 "all pairs of well-formed schemas in each dialect.",
 "Fixed before/after texts in the tests do not look at what else the diff might touch when unrelated objects are present.",
 f("diff.go", "diff_create_table.go"),
 [dict(name="touched objects", meaning="objects mentioned by executed statements", where="spec/DiffTrace.tla: touched")],
 [dict(name="find*ByName matching", where="pkg/ddl/*/diff.go, diff_create_table.go")],
 ["text printed by Diff(before, after).String()"])

prop("C05", "Parsing a schema and printing it back loses and invents nothing",
 "Every text of the supported grammar is accepted, and the printed form of a parsed schema declares exactly the objects the text declared, with every attribute, in the same statement and column order, with default constraint names made explicit; parsing the printed form again and printing it gives the same text.",
 ["inputs"],
 "all schemas written in the supported grammar of each dialect: every data type with and without arguments, literals and expressions in defaults and checks, every column attribute in any accepted order, named and unnamed constraints, indexes, table options, comments, quoted names.",
 "The parser tests use about twenty long texts per dialect and compare with strings produced by the same printer; combinations of attributes, expressions and constraint positions are sampled only there.",
 f("parser.go", "lexar.go", "ddl_table.go", "ddl_table_create.go", "ddl_index_create.go"),
 [dict(name="declared catalog", meaning="what the text declares, with default names resolved", where="spec/Catalog.tla")],
 [dict(name="NewParser(NewLexer(..)).Parse", where="pkg/ddl/*/parser.go"), dict(name="String()", where="pkg/ddl/*/ddl_table*.go")],
 ["Parse(text).String()"])

prop("C06", "Any input text is either parsed or refused with an error",
 "Parsing any text whatsoever terminates and either yields a schema or returns an error; it never crashes or runs forever. A statement that is cut off, or has a required part missing, or is of an unsupported kind, is refused with an error rather than silently dropped.",
 ["inputs"],
 "all byte strings; in particular every prefix and every single-token deletion, duplication or replacement of supported statements, and unterminated quotes, comments and parentheses.",
 "Error-path tests feed one specific bad token per parser branch; unterminated constructs and arbitrary token orders are unbounded.",
 f("parser.go", "lexar.go"),
 [dict(name="parser session", meaning="ready, reading, accepted, refused", where="spec/Parse.tla")],
 [dict(name="token checks in the parser", where="pkg/ddl/*/parser.go"), dict(name="end-of-input handling in the lexer", where="pkg/ddl/*/lexar.go")],
 ["return of Parse"])

prop("C07", "Apply executes exactly the statements it showed, in that order",
 "The statements that apply sends to the database are exactly the statements of the difference it displayed for approval, each complete and unaltered apart from comments and layout, in the displayed order, inside one batch where the dialect batches, on the database named as the first argument, with the driver of the chosen dialect. When there is no difference nothing is sent.",
 ["inputs", "histories"],
 "all pairs of schemas and all dialects; statements containing comments, several lines, and literals with comment markers or statement separators.",
 "No test covers apply at all: the package has no test files and the real drivers need servers.",
 ["pkg/ddlctl/apply/ddlctl_apply.go", "pkg/internal/util/remove_comment.go", "pkg/ddlctl/diff/ddlctl_diff.go"],
 [dict(name="shown / executed", meaning="statements displayed and statements received by the database", where="spec/Apply.tla")],
 [dict(name="splitting and comment removal", where="pkg/ddlctl/apply/ddlctl_apply.go splitExec, pkg/internal/util/remove_comment.go")],
 ["standard output of 'ddlctl apply'; statements received by the database driver"])

prop("C08", "Nothing is executed without approval of the displayed statements",
 "Apply sends no schema statement to the database until it has displayed the statements and then either read an answer that is exactly 'yes' or been started with automatic approval. Any other answer, including the end of input, cancels with an error and a failing exit status, and the database is not modified.",
 ["inputs", "histories", "configurations"],
 "all answers, all dialects, automatic approval given by option, by environment, or not at all.",
 "No test covers apply or its prompt.",
 ["pkg/ddlctl/apply/ddlctl_apply.go", "pkg/internal/config/auto_approve.go"],
 [dict(name="approval state", meaning="planned, shown, approved, cancelled", where="spec/Apply.tla: phase")],
 [dict(name="prompt and automatic approval", where="pkg/ddlctl/apply/ddlctl_apply.go Command, prompt")],
 ["standard output, exit status, statements received by the database driver"])

prop("C09", "Apply reports success exactly when every statement took effect",
 "Whatever errors the database returns and in whatever order, apply ends, with a bounded number of attempts; it reports success exactly when every statement has been accepted (or, for MySQL, refused as already present), and otherwise fails with an error. A statement that has been accepted is never sent again, a failing one is retried only in the dialects that retry, and a batch is never run after one of its statements was refused.",
 ["fault_sequences", "inputs"],
 "all assignments of outcomes (accepted, each error class) to statement attempts, connection failures, all dialects.",
 "No test covers apply; outcomes depend on the history of failures over several attempts.",
 ["pkg/ddlctl/apply/ddlctl_apply.go"],
 [dict(name="pending", meaning="statements not yet accepted", where="spec/Apply.tla: pending"), dict(name="attempt", meaning="number of passes made", where="spec/Apply.tla")],
 [dict(name="retry loop and error classification", where="pkg/ddlctl/apply/ddlctl_apply.go splitExec"), dict(name="batch", where="pkg/ddlctl/apply/ddlctl_apply.go Apply")],
 ["exit status and 'done' line; statements received by the database driver"])

prop("C10", "Generated DDL declares exactly what the annotated source declares",
 "The DDL generated from annotated Go source contains one table statement per annotated struct and one statement per index annotation, in source order, with the annotated names, every tagged field as a column with its definition in source order, fields excluded with '-' left out, primary keys, constraints and options as annotated, and nothing else. The result depends only on the source, covers every source file of a given directory, follows the configured tag names, and can be parsed back by the tool's own parser for that dialect.",
 ["inputs", "configurations"],
 "all Go sources using the documented annotations, all supported dialects of generation, single files and directory trees, any configured tag keys.",
 "The generator tests compare a few fixture files; combinations of annotations, tags, several structs, files and directories are not covered, and the command itself has no test.",
 ["pkg/internal/lang/go/parse.go", "pkg/internal/lang/go/extract_source.go", "pkg/internal/generator/dialect/*/create_table.go", "pkg/internal/generator/dialect/*/create_index.go", "pkg/ddlctl/generate/ddlctl_generate.go"],
 [dict(name="declared structs", meaning="annotated structs, tags and comments of the source tree", where="spec/Generate.tla")],
 [dict(name="annotation extraction", where="pkg/internal/lang/go/extract_source.go, parse.go"), dict(name="statement printing", where="pkg/internal/generator/dialect/*")],
 ["file written by 'ddlctl generate'; 'ddlctl diff' reading a directory"])

prop("C11", "Showing a database reproduces its schema completely and once",
 "The DDL shown for a database, read back by the tool's parser for that dialect, declares every table and every index of the database exactly once with the columns, types, defaults, nullability and keys the database reports, and nothing from other schemas. A failing query makes the command fail instead of printing a partial schema.",
 ["inputs", "fault_sequences"],
 "all catalogs of the four dialects (ordinary tables, columns, keys, references, checks, indexes, interleaving) together with any other content of the server: other schemas, views, system-managed indexes; and a failure at any query or row.",
 "Tests of the show packages stub the database with one fixed answer; the show command has no test.",
 ["pkg/show/*/show_create_all_tables.go", "pkg/ddlctl/show/ddlctl_show.go"],
 [dict(name="database catalog", meaning="what the database holds", where="spec/Show.tla")],
 [dict(name="catalog queries and statement assembly", where="pkg/show/*/show_create_all_tables.go")],
 ["standard output of 'ddlctl show'"])

prop("C12", "Commands take each input from the source and setting that the user selected",
 "For diff and apply an argument that names a file is read as DDL text, one that names a directory is generated from its annotated sources, and anything else is opened as a database with the driver of the dialect; generate takes a source file or directory. The result does not depend on which source provided a schema. Every setting follows the precedence option, then environment variable, then default; tracing and debugging do not change a result. An unknown dialect, an unknown language where one is needed, an unreadable source or a wrong number of arguments is refused with an error and a failing exit status, never with a crash or a partial output, and leaves the destination as it was.",
 ["configurations", "inputs"],
 "all commands, all settings given in any combination of option, environment and default, all combinations of argument kinds and argument counts, in every dialect.",
 "Tests of the settings look at one value each; the commands that combine them (diff, apply, generate, show) have no tests.",
 ["pkg/ddlctl/ddlctl.go", "pkg/ddlctl/diff/ddlctl_diff.go", "pkg/ddlctl/generate/ddlctl_generate.go", "pkg/ddlctl/show/ddlctl_show.go", "pkg/ddlctl/apply/ddlctl_apply.go", "pkg/internal/config/*.go"],
 [dict(name="settings", meaning="effective value of each setting", where="spec/CommandRules.tla"), dict(name="run", meaning="arguments resolved, databases opened, output, destination, status", where="spec/Command.tla")],
 [dict(name="resolve", where="pkg/ddlctl/diff/ddlctl_diff.go"), dict(name="option table", where="pkg/ddlctl/ddlctl.go"), dict(name="config loading", where="pkg/internal/config")],
 ["standard output, destination file, exit status, data source opened"])

prop("C13", "Computing a difference is repeatable and leaves its inputs alone",
 "Computing the difference of the same two schemas always gives the same statements, in any process and however often it is repeated, and leaves both schemas as they were: they print as before and give the same results in every later comparison. Comparing in the other direction afterwards gives what a fresh comparison would.",
 ["histories", "inputs"],
 "all pairs of well-formed schemas in each dialect; all sequences of comparisons over one set of parsed schemas, concurrent ones included.",
 "Tests compute each diff once from freshly parsed inputs.",
 f("diff.go", "diff_create_table.go", "ddl_table.go"),
 [dict(name="parsed schemas", meaning="shared inputs of several comparisons", where="spec/Session.tla")],
 [dict(name="Diff / DiffCreateTable take pointers to shared statements", where="pkg/ddl/*/diff.go, diff_create_table.go"), dict(name="Constraints.Append ordering", where="pkg/ddl/*/ddl_table.go")],
 ["Diff(before, after).String(); before.String(); after.String()"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as fh:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        fh.write(json.dumps(p) + "\n")
