"""writes MANIFEST.json from the table below"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CAT = "TLA+ trace validation (TLC): statements emitted by the real code are executed as steps of spec/Catalog.tla from schemas TLC enumerates (spec/Gen.tla)"
TRUST = "Trusts spec/Catalog.tla as the meaning of DDL in each database, the independent reader tools/sql.py, and TLC. Inputs are schemas reachable by the edits of spec/Gen.tla from four base schemas with values from fixed pools: not every schema."
C = {
 "C01": (CAT, "Every single edit in both directions and sampled evolutions of up to 5 (quick) or 7 (thorough) edits per dialect; the final catalog must equal the wanted one. " + TRUST),
 "C02": (CAT, "Each emitted statement must be enabled where it stands, for the same scenarios as C01. " + TRUST),
 "C04": (CAT, "Each emitted statement must touch only what differs, for the same scenarios as C01. " + TRUST),
 "C05": ("TLA+ trace validation (TLC): the print of each parsed text is executed as steps of spec/Catalog.tla and must declare the catalog, order and names of the text", "Texts are TLC-enumerated schemas laid out in random styles, half with columns from a wide pool of types, defaults and expressions per dialect. " + TRUST),
 "C03": ("TLA+ trace validation (TLC): spec/DiffTrace.tla confirms that two texts declare one catalog of spec/Catalog.tla, and then admits only an empty difference", "Pairs of texts of TLC-enumerated schemas that differ in keyword case, white space, comments, quoting, IF NOT EXISTS, statement, constraint and column order, type synonyms, inline or table-level constraints, default or explicit names; also each text against its own print. " + TRUST),
 "C06": ("TLA+ trace validation (TLC): texts that spec/Edits.tla makes from statements of the grammar are given to the real parser; spec/ParseTrace.tla validates each answer against the three-valued grammar spec/Parse.tla", "Every prefix, every single-token deletion, duplication, replacement, insertion and swap of 5 to 7 statements per dialect that use the whole grammar, sampled triples of such edits, every prefix by characters, and random bytes (termination only). Where Parse.tla insists on neither answer, only termination and that nothing accepted is dropped are judged. " + TRUST),
 "C07": ("TLA+ trace validation (TLC): scenarios of spec/Apply.tla (model-checked against its invariants) are run on the real command against a recording database, and the recorded runs are validated by spec/ApplyTrace.tla", "Differences of 0 to 3 (thorough: 4) statements under every fault pattern, sampled, plus differences of TLC-enumerated schema pairs of each dialect; statements are compared with those of `ddlctl diff` token by token. The database is a recorder that speaks through database/sql drivers put in place of the real ones at build time; timing is real."),
 "C08": ("TLA+ trace validation (TLC): scenarios of spec/Apply.tla (model-checked against its invariants) are run on the real command against a recording database, and the recorded runs are validated by spec/ApplyTrace.tla", "Every kind of answer, end of input, and every way to set automatic approval, with the database accepting or refusing everything, and approved runs under faults. The database is a recorder that speaks through database/sql drivers put in place of the real ones at build time; timing is real."),
 "C09": ("TLA+ trace validation (TLC): scenarios of spec/Apply.tla (model-checked against its invariants) are run on the real command against a recording database, and the recorded runs are validated by spec/ApplyTrace.tla", "Every combination of refusals over 1 to 3 (thorough: 4) statements per dialect, sampled in quick, also refused connections and batches. The database is a recorder that speaks through database/sql drivers put in place of the real ones at build time; timing is real."),
 "C10": ("TLA+ trace validation (TLC): annotated sources built by spec/Generate.tla are given to the real command, and what it generates is validated by spec/GenerateTrace.tla", "Sources of up to 3 files, 3 declarations, 6 comment lines and 5 fields (thorough: up to 12 and 12), the small ones exhaustively sampled, in random names, layouts, tags and definitions; every run is made under options, under environment variables and on one processor. Trusts spec/GenerateRules.tla as the meaning of the annotations and tools/sql.py to read the output. Not covered: several names in one field under one column tag, two table annotations on one struct, malformed tags."),
 "C11": ("TLA+ trace validation (TLC): databases holding TLC-enumerated schemas, and the failure positions of spec/Show.tla (model-checked against its invariants), are given to the real command; spec/ShowTrace.tla executes what it shows as steps of spec/Catalog.tla and compares it with the database", "Schemas of spec/Gen.tla in each dialect among decoys (other schemas, views, managed indexes, names shared across kinds, dropped columns), each failure position, and the print of each shown schema read back. The real query texts of PostgreSQL and Spanner are evaluated in SQLite over simulated information schemas; MySQL and CockroachDB databases are recorded answers of SHOW CREATE. Four narrow known findings are left out of the random part and probed one by one. " + TRUST),
 "C12": ("TLA+ trace validation (TLC): command lines enumerated by spec/Command.tla (model-checked against its invariants) are run on the real command and validated by spec/CommandTrace.tla; differences between schemas from files, sources and databases are executed as steps of spec/Catalog.tla (spec/DiffTrace.tla)", "Every combination of at most one setting besides the dialect given as option, environment variable or both with every kind and number of arguments, sampled, and random combinations of all settings; the observed outcome must be that of the effective settings out of 54 settings whose right outcomes are computed beforehand. Values of settings and names of files are from pools. " + TRUST),
 "C13": ("TLA+ trace validation (TLC): histories of comparisons over shared parsed schemas, enumerated by spec/Session.tla, are replayed on the real code and validated by spec/SessionTrace.tla against answers of fresh processes", "All histories of 2 comparisons over 2 schemas and random ones of 8 over 3, on TLC-enumerated schemas; every answer must equal that of two fresh processes and every print the first one. " + TRUST),
}
ALL = ["C%02d" % i for i in range(1, 14)]
REASON = {}
m = dict(version=1, setup_cmd="true", checks=[], not_applicable=[])
for p in ALL:
    if p in C:
        m["checks"].append(dict(property=p, quick_cmd="python3 check.py %s --tier quick" % p, thorough_cmd="python3 check.py %s --tier thorough" % p,
                                evidence_file="evidence/%s.json" % p, technique=C[p][0], level="model_checking", level_note=C[p][1]))
    else:
        m["not_applicable"].append(dict(property=p, reason=REASON.get(p, "check under construction")))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
