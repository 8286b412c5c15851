#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PLAN = "subsetter/planner.py"
SOLV = "subsetter/solver.py"
META = "subsetter/metadata.py"
SAMP = "subsetter/sampler.py"
FILT = "subsetter/filters.py"
MODL = "subsetter/plan_model.py"
CONF = "subsetter/config_model.py"
COMM = "subsetter/common.py"
MAIN = "subsetter/__main__.py"

P = []


def prop(pid, title, statement, over, text, why, files, mech, technique, note, level="exploration", **kw):
    P.append(dict(
        id=pid, title=title, statement=statement,
        quantifier={"over": over, "text": text}, why_tests_cant=why,
        anchors={
            "files": files,
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": kw.pop("observe", ["rows of the destination database after the run"]),
            "hook_needed": None,
        },
        technique=technique, note=note, level=level,
    ))


LIVE = "The tests subset a handful of fixed schemas with a few rows each on a fixed configuration"

prop(
    "C01", "A delivered sample has no dangling references",
    "In the sample delivered for any plan the planner produces, every row whose foreign key (declared in the source schema or "
    "configured as an extra or inferred one, and not configured to be ignored) is non-null and refers to an existing row of "
    "another sampled table finds that row in the sample. This holds for composite, nullable, shared-column and multiple "
    "foreign keys, for keys that reference unique non-primary columns, for any number of targets and for every supported database.",
    ["inputs", "configurations", "programs"],
    "all source schemas without foreign key cycles, all contents of them, all valid planner configurations, on sqlite, postgres and mysql",
    LIVE + "; integrity must hold for every schema graph, key shape, data distribution and target combination.",
    [PLAN, SOLV, MODL, META, SAMP],
    [("sampling order with one direction per relation", f"{SOLV}: order_graph"),
     ("intersection / union of relations to sampled tables", f"{PLAN}: Planner._plan_table"),
     ("materialised samples referenced by later queries", f"{SAMP}: Sampler._materialize_tables")],
    "offline reference monitor over delivered rows", "Random schemas, data and planner configurations; every reference of every delivered row is looked up in the delivered sample by an oracle that reads the destination with plain drivers. Trusts the three database engines.",
)
prop(
    "C02", "Each table is exactly the intersection or union its relations demand",
    "Between any two sampled, non-passthrough tables related by a foreign key, the relation is followed in exactly one direction and the directions are acyclic. "
    "A table sampled after tables it references consists of exactly the rows whose every such reference is non-null and present in the sample (further narrowed only by configured table constraints), "
    "and a table sampled after tables that reference it consists of exactly the rows at least one sampled row refers to (plus its own target rows if it is a target), each once.",
    ["inputs", "configurations", "programs"],
    "all acyclic schemas, contents and planner configurations; multi-target unions; null, composite and parallel keys",
    LIVE + "; being neither too small nor too large must hold for every relation graph and multiplicity of matches.",
    [PLAN, SOLV, MODL, SAMP],
    [("direction selection", f"{SOLV}: order_graph / toposort_reachable"),
     ("inner / outer joins, exists and group by", f"{MODL}: SQLStatementSelect.build"),
     ("union simplification", f"{MODL}: SQLStatementUnion.simplify")],
    "reference-model monitor (set semantics) over delivered rows", "The oracle recomputes, from the delivered samples of the tables a table was derived from, the exact set of rows it must contain, and compares multisets.",
)
prop(
    "C03", "Target filters select exactly what they say",
    "A target contributes the rows matching all of its like, in and sql filters (and the table's constraints); amount keeps exactly min(amount, matches) of them, percent keeps each independently with that probability, and all overrides every filter. "
    "A target additionally contains exactly the rows other sampled tables need from it and nothing else.",
    ["inputs", "configurations"],
    "all combinations of target filters over all table contents, with and without other targets depending on the table, on every dialect",
    LIVE + "; random sampling and combinations of filters cannot be pinned by expected files.",
    [PLAN, MODL, CONF],
    [("target conditions", f"{PLAN}: Planner._plan_table"), ("random threshold / random order with limit", f"{MODL}: SQLWhereClauseRandom, SQLStatementSelect.build")],
    "reference-model monitor, exact counts, binomial bounds for percent", "Exact for everything but percent, which is decided by binomial bounds at under 1e-9 false alarm probability per run.",
)
prop(
    "C04", "The planner plans exactly the connected tables or refuses",
    "A successful plan has a query for every passthrough table and for every selected, non-ignored table connected to a target through usable foreign keys, and for no other table; its queries only depend on other planned tables and never cyclically. "
    "Planning succeeds whenever the connected foreign keys form no cycle, targets are selected, no unignored table references an ignored one and passthrough tables reference only passthrough tables; otherwise it fails with an error and produces no plan.",
    ["inputs", "configurations", "programs"],
    "all schema graphs (including cyclic, self-referencing and disconnected ones) and all planner configurations",
    "Solver tests run fixed small graphs and live tests fixed schemas; coverage, acyclicity and refusal must be exact for every graph.",
    [PLAN, SOLV, META],
    [("alternating reachability", f"{SOLV}: order_graph"), ("validation", f"{PLAN}: _check_ignore_tables, _check_passthrough_tables, _solve_order")],
    "runtime monitor of plans against an independent graph model", "Compares every produced plan or refusal with an independently computed connected component, dependency order and cycle test, plus direct runs of the ordering on random graphs.",
    observe=["the plan document or the error"],
)
prop(
    "C05", "Foreign key and scope settings are honoured",
    "Ignored relations are never followed, extra relations are followed exactly like declared ones, and inferred relations are exactly those from a column named like the only single-column primary key of that name in scope (the schema or everything). "
    "Selected patterns bring in exactly the matching tables plus, unless disabled, every table they reference directly or indirectly.",
    ["configurations", "inputs"],
    "all combinations of ignore_fks, extra_fks, infer_foreign_keys, include_dependencies and select patterns over all schemas",
    "Tests exercise each setting on one schema; interactions between settings, schemas and key shapes are not sampled.",
    [PLAN, META, CONF],
    [("ignore / extra keys", f"{PLAN}: _remove_ignore_fks, _add_extra_fks"), ("inference", f"{META}: infer_missing_foreign_keys"), ("closure", f"{META}: from_engine")],
    "runtime monitor of plans and rows against an independent model", "The independent model recomputes the usable relations; both the plan's coverage and the delivered rows have to agree with it.",
)
prop(
    "C06", "Passthrough tables arrive complete, ignored tables not at all",
    "Every passthrough table is delivered with all of its rows, whatever else is sampled, and is not used to select rows of other tables. "
    "Ignored tables, and tables not part of the plan, receive no rows and influence no selection.",
    ["configurations", "inputs"],
    "all schemas and all sets of passthrough and ignored tables",
    "One live test covers a single passthrough table.",
    [PLAN, SAMP],
    [("passthrough queries", f"{PLAN}: Planner._plan_internal"), ("graph without passthrough / ignored tables", f"{META}: as_graph")],
    "reference-model monitor over delivered rows", "Passthrough tables are compared in full; the destination holds all tables of the world so that rows in the wrong table are seen.",
)
prop(
    "C07", "A saved plan means the same as planning and sampling in one go",
    "Writing the plan with the plan command, reading it back and sampling it delivers the same rows as the subset command with the same configuration, when the configuration selects deterministically. "
    "Planning the same database with the same configuration gives the same plan in every process and for every order in which the tables were created.",
    ["configurations", "inputs", "programs"],
    "all planner configurations and schemas, including names and values that are special in YAML, and different hash seeds",
    "One fixed plan is compared with an expected YAML file in one process.",
    [MAIN, MODL, PLAN, SOLV],
    [("YAML serialisation", f"{MAIN}: _main_plan, _main_sample"), ("sorted weights and sorted keys", f"{SOLV}: toposort_reachable, {PLAN}: _plan_table")],
    "differential runtime monitor (separate processes, shuffled creation order, hash seeds)", "Runs the real command line in separate processes and compares delivered rows and plans.",
)
prop(
    "C08", "Plan documents are executed with SQL semantics and simplification keeps them",
    "Sampling a hand written plan selects for every table exactly the rows its document describes under SQL three-valued logic: nested and/or/in/not-in/operator/sql conditions with parameters, subqueries, unions, selected columns and references to other tables' samples. "
    "Simplifying a statement never changes the set of rows it selects.",
    ["programs", "inputs"],
    "all well-formed plan documents over all table contents including nulls",
    "Tests simplify a few statements and never execute arbitrary documents.",
    [MODL, SAMP],
    [("statement building", f"{MODL}: build methods"), ("simplification rules", f"{MODL}: simplify methods")],
    "reference interpreter as execution monitor", "A small interpreter with three-valued logic predicts the rows of random plan documents; the original and the simplified document are both executed by the real sampler.",
)
prop(
    "C09", "Rows are copied exactly once and unchanged",
    "Without transformations configured, every sampled row arrives in the destination exactly once with every value equal to the source value, for tables of any size (including around internal batch sizes), with or without primary key, materialised or not, and for every pair of source and destination database. "
    "Computed destination columns are left to the destination.",
    ["inputs", "configurations"],
    "all row counts, all values of the common column types, all source and destination dialect pairs",
    "Fixed datasets hold a few rows; batch boundaries, odd values, names and dialect pairs are not covered.",
    [SAMP, META],
    [("batching", f"{SAMP}: DatabaseOutput.output_result_set"), ("temporary tables", f"{SAMP}: TempTableCreator.create")],
    "offline conservation / exactly-once checker over delivered rows", "Multiset equality of typed values between source and destination, read with plain drivers. Two representation changes of JSON columns are known findings.",
)
prop(
    "C10", "The source database is never modified",
    "Planning and sampling, successful or failing at any point, leave every table, row, index, sequence and setting of the source unchanged; the only things ever created there are temporary tables. "
    "A read-only account that may create temporary tables is sufficient.",
    ["inputs", "configurations", "fault_sequences"],
    "all configurations and commands, including runs that fail midway, on every dialect",
    "No test looks at the source after a run.",
    [SAMP, PLAN, META],
    [("temporary tables only", f"{SAMP}: TempTableCreator.create"), ("reads", f"{SAMP}: Sampler._copy_results")],
    "full before/after dumps, statement log and engine-enforced read-only accounts", "Compares complete dumps (sqlite: file bytes), watches every statement sent to the source and runs under accounts / authorizers that refuse writes.",
    observe=["source dumps", "statements sent to the source"],
)
prop(
    "C11", "Compaction renumbers consistently",
    "Each compacted column of a table with n delivered rows holds start_key, start_key+1, ..., start_key+n-1 in the order of the source primary key, and each foreign key onto it, directly or through columns that are foreign keys themselves, holds the new identifier of the same row it referred to (null stays null). "
    "Everything else is unchanged, no row is lost or duplicated, and configurations that would compact a column within a foreign key are refused before anything is written.",
    ["inputs", "configurations"],
    "all schemas, samples, compaction settings and start keys on every dialect",
    "Three live tests compact one small schema.",
    [SAMP, CONF],
    [("row_number at materialisation", f"{SAMP}: Sampler._materialize_tables"), ("joins for references", f"{SAMP}: Sampler._copy_results"), ("validation", f"{SAMP}: Sampler._get_compact_columns")],
    "reference-model monitor over delivered rows", "Exact prediction of every delivered value from the source rows.",
)
prop(
    "C12", "Multiplicity makes isomorphic disjoint copies",
    "With multiplier m every row of a multiplied table arrives exactly m times, copy i having value*m+i in each multiplied column (primary key, extra columns, and every foreign key column referring to a multiplied column) and equal values elsewhere, so that copy i refers only to copy i. "
    "Passthrough and excluded tables arrive once, and configurations with non-integer multiplied columns or references from unmultiplied tables to multiplied columns are refused before anything is written.",
    ["inputs", "configurations"],
    "all schemas, samples, multipliers and multiplicity settings on every dialect and output kind",
    "One live test multiplies one schema.",
    [SAMP, CONF],
    [("closure of multiplied columns", f"{SAMP}: Sampler._get_multiplied_columns"), ("row multiplication", f"{SAMP}: output_result_set")],
    "reference-model monitor over delivered rows", "Exact prediction of every delivered value from the source rows.",
)
prop(
    "C13", "Merging never disturbs existing data and shifts consistently",
    "Sampling in merge mode leaves every existing destination row unchanged and adds each sampled row once; single-column integer primary keys (not themselves foreign keys) of a table that already had rows are shifted by its largest existing key plus one, and every foreign key column referring, directly or through other foreign keys, to a shifted primary key is shifted by the same amount. "
    "Passthrough tables keep their keys and only rows whose primary key is not yet present are added; repeated merges accumulate the same way.",
    ["histories", "inputs", "configurations"],
    "all sequences of merges into all destination contents, on every dialect",
    "One live test merges once into one schema.",
    [SAMP],
    [("offsets", f"{SAMP}: DatabaseOutput.prepare"), ("skip for passthrough", f"{SAMP}: DatabaseOutput.output_result_set")],
    "reference-model monitor over a history of merges", "Predicts the full destination contents after each of several consecutive merges.",
)
prop(
    "C14", "Conflict strategies do what they promise",
    "When a delivered row's primary key already exists in the destination, skip keeps the existing row unchanged, replace makes the delivered columns equal the source and keeps other columns, and error fails the run without altering the existing row; rows that do not conflict are inserted in each successful case. "
    "Rows of the destination that do not conflict are never changed, and a row the destination refuses for another reason fails the run whatever the strategy.",
    ["inputs", "configurations"],
    "all overlaps between sample and destination contents, all key shapes, batch positions of the conflict, all dialects",
    "One live test per strategy with a single conflicting row.",
    [SAMP],
    [("conflict aware insert", f"{SAMP}: ConflictInsert")],
    "reference-model monitor over destination contents", "Predicts the full destination contents after the run, including omitted and computed columns.",
)
prop(
    "C15", "Truncation clears exactly the sampled tables and their dependents",
    "With truncation requested, every destination table about to be sampled, and every destination table that directly or indirectly references one of them, is empty before rows are delivered, without violating destination foreign keys at any point; every other destination table keeps all of its rows. "
    "Without truncation no existing row is deleted.",
    ["configurations", "inputs"],
    "all destination schemas, contents, remappings and plans",
    "One live test truncates one schema.",
    [SAMP, META],
    [("backward closure", f"{META}: from_engine(close_backward)"), ("reverse topological deletes", f"{SAMP}: DatabaseOutput.truncate")],
    "reference-model monitor over destination contents and statement log", "Destinations with additional dependent and unrelated tables, enforced foreign keys, complete comparison afterwards.",
)
prop(
    "C16", "Created tables reproduce the source structure, existing ones stay untouched",
    "With creation requested, each missing destination table gets the source table's columns in order with their types and nullability, primary key, unique and check constraints, (partial) column indexes and those foreign keys whose target is sampled too (renamed according to the remapping), for any table and column names. "
    "Tables that already exist keep their definition and rows, and without creation requested a missing table is an error and nothing is created.",
    ["inputs", "configurations", "programs"],
    "all schemas, names, subsets of existing tables and remappings on every dialect",
    "Two live tests create one small schema.",
    [SAMP],
    [("schema copy", f"{SAMP}: DatabaseOutput.create")],
    "catalogue comparison with plain drivers", "Reads the database catalogues of source and destination directly and compares them structurally.",
    observe=["database catalogues of source and destination"],
)
prop(
    "C17", "Remapping routes every table to exactly one place",
    "Each sampled table's rows, creation and truncation all go to the table named by applying the configured patterns in order to its full name, and to no other. "
    "If two sampled tables would map to the same name the run fails before the destination is changed.",
    ["configurations", "inputs"],
    "all pattern lists (several, overlapping, with groups) and table names",
    "One live test remaps one schema prefix.",
    [SAMP],
    [("remapping", f"{SAMP}: DatabaseOutput._remap_table")],
    "reference-model monitor over destination contents", "Predicts the destination name by an independent application of the patterns and looks at all destination tables.",
)
prop(
    "C18", "Filters change only what they name and hide what they replace",
    "Applying a table's filters in order changes only the listed columns, each seeing the result of the previous one, to the documented value (null, zero of the same type, constant, plugin result, omitted); a multiplex filter applies its first matching condition's filter to the row and otherwise leaves it alone. "
    "After null, zero, constant, omit, random or fake filters the original value of the column does not reach any output, and listed columns that do not exist are refused before the destination is changed.",
    ["inputs", "configurations", "programs"],
    "all chains of filters over all rows, for database and directory output, with materialisation, multiplicity and batches",
    "Tests run single filters on a few hand written rows.",
    [FILT, SAMP],
    [("filter chain", f"{FILT}: FilterViewChain"), ("per-row application", f"{SAMP}: output_result_set")],
    "reference-model monitor and taint markers over all output", "Predicts deterministic filters exactly; replaced columns carry unique markers that are searched for in everything the destination received.",
)
prop(
    "C19", "Generated values stay in their documented domain",
    "Random integers and floats lie in the configured inclusive range, random strings have the configured length over the configured alphabet, uuids are valid and distinct, fake values have the right kind and, when marked unique, never repeat within a column of one run. "
    "Values are drawn afresh for every row and column and every value of a small domain eventually occurs.",
    ["inputs", "configurations"],
    "all filter parameters and row counts",
    "Tests draw a handful of values per filter.",
    [FILT],
    [("random and fake filters", f"{FILT}: FilterRandomInt, FilterRandomFloat, FilterRandomString, FilterUuid, FilterFakeColumns")],
    "statistical and domain monitor over large numbers of draws", "Domain membership is exact; coverage and freshness use bounds with under 1e-9 false alarm probability.",
)
prop(
    "C20", "Auto-increment keeps working after a run",
    "After any successful run, inserting a row into a delivered table without giving its auto-increment key succeeds with a key larger than every delivered and existing key. "
    "No run ever moves the destination's key generator backwards.",
    ["inputs", "configurations", "histories"],
    "all table and column names, delivered keys, existing contents, merge, compaction, multiplicity and conflict strategies, on every dialect",
    "One live test checks a sequence on one plainly named table.",
    [SAMP],
    [("sequence update", f"{SAMP}: _autoincrement_update")],
    "probe inserts as runtime monitor, generator value recorded before and after", "Inserts probe rows with the raw driver after the run and compares the generator's state before and after.",
)
prop(
    "C21", "The destination is consistent at every commit",
    "At every moment another connection can observe while truncating or sampling, the destination's declared foreign keys hold: referenced rows are delivered before the rows referring to them and removed after them. "
    "A run interrupted at any such moment leaves a destination without dangling references.",
    ["crash_points", "configurations", "inputs"],
    "all commits of all runs, all schemas and destinations whose constraints are not enforced by the database",
    "Tests only look at the destination after successful runs, with constraints enforced or no references at all.",
    [SAMP, META],
    [("insert order", f"{SAMP}: DatabaseOutput.insert_order"), ("truncate order", f"{SAMP}: DatabaseOutput.truncate"), ("topological order", f"{META}: DatabaseMetadata.toposort")],
    "invariant monitor at every commit event", "An event hook inspects the destination through a second raw connection at every commit of the destination connection; destinations both with and without enforcement.",
    observe=["destination contents at every commit"],
)
prop(
    "C22", "A failing database statement is reported and leaves no silent damage",
    "If any statement, connection attempt, commit or fetch on source or destination fails, the run ends with an error (a non-zero exit status on the command line) instead of reporting success "
    "(catalogue queries and indexes of temporary tables excepted, whose failure may be survived if the result is complete all the same); in any case the source stays unchanged and no delivered row is altered, duplicated or dangling. "
    "Running again with truncation afterwards yields the full correct sample.",
    ["fault_sequences", "crash_points"],
    "a failure injected at every single database interaction of a run",
    "No test injects a database failure.",
    [SAMP, PLAN, MAIN],
    [("error propagation", f"{SAMP}: Sampler.sample"), ("exit status", f"{MAIN}: main")],
    "exhaustive single-fault injection at the driver boundary with a state checker", "For each scenario a fault is raised at each database interaction in turn.", level="fault_enumeration",
    observe=["error / exit status", "destination contents after the failure and after a repeated run"],
)
prop(
    "C23", "Misconfiguration is rejected before the destination is touched",
    "A configuration that cannot be carried out (unknown filter columns or plugins, ill-formed filters, remap collisions, illegal compaction or multiplicity, missing destination tables without creation, missing destination columns, "
    "plans that do not fit the source, invalid values anywhere, unknown fields outside of filters and connection settings) fails with an error that names the problem, before any destination row or table is created, changed or deleted. "
    "In particular a requested truncation has not happened.",
    ["configurations"],
    "all kinds of invalid configuration placed at any table or position of otherwise valid configurations",
    "Tests check that a few invalid objects raise, not what happened to the destination.",
    [SAMP, CONF, FILT],
    [("validation before create / truncate", f"{SAMP}: Sampler.sample, Sampler._validate_filters"), ("config models", CONF)],
    "before/after dumps of the destination plus statement log", "One random defect is put into a valid configuration; the destination is dumped before and after.",
    observe=["error", "destination dump", "statements sent to the destination"],
)
prop(
    "C24", "Connection settings resolve and apply as documented",
    "Each of dialect, host, port, database, user, password and ssl settings is taken from the configuration if given, else from the SUBSET_SOURCE_/SUBSET_DESTINATION_ variable of that side, else from the documented default, and reaches the database driver in the form that driver expects. "
    "Session statements, attached sqlite databases and the isolation level are in effect on every connection throughout the run.",
    ["configurations"],
    "all combinations of explicit, environment and default settings on both sides and all dialects",
    "No test covers environment variables, ssl or session settings.",
    [COMM, SAMP, PLAN],
    [("url and connect arguments", f"{COMM}: database_url, DatabaseConfig.database_engine, SSLConfig.get_connect_args")],
    "monitor at the driver's connect boundary and session probes on live servers", "Connect calls are recorded with stand-in drivers; session state is probed on live connections while a run is in progress.",
    observe=["arguments of the drivers' connect calls", "session settings seen by statements of a run"],
)
prop(
    "C25", "Memory use does not grow with table size",
    "Sampling a large table, with or without materialisation, filters and multiplicity, buffers at most a bounded number of rows between source and destination: neither side ever holds the whole table in process memory. "
    "The destination receives rows in bounded batches, interleaved with reading.",
    ["inputs"],
    "all table sizes beyond the batch size, all outputs and dialects with streaming support",
    "Test tables have a few rows.",
    [SAMP],
    [("server side cursor with yield_per", f"{SAMP}: Sampler._copy_results"), ("bounded buffer", f"{SAMP}: DatabaseOutput.output_result_set")],
    "event monitor counting rows in flight at the driver boundary", "Counts rows fetched from the source driver minus rows handed to the destination driver at every event.",
    observe=["rows fetched from the source and executed at the destination over time"],
)
prop(
    "C26", "The command line reports success truthfully and layers configuration",
    "Each command exits 0 exactly if the work was done completely, and otherwise exits non-zero with an error on stderr and no traceback unless verbose; the plan goes to the named file or to standard output as a document the sample command accepts. "
    "Several configuration files are merged in order, mappings recursively and later values winning, and standard input is accepted as a configuration or plan.",
    ["configurations", "fault_sequences"],
    "all commands, option combinations, configuration layerings and failure causes",
    "No test runs the command line.",
    [MAIN, CONF],
    [("argument parsing and merge", f"{MAIN}: _get_config"), ("error handling", f"{MAIN}: main")],
    "process level monitor of exit status, output streams and effects", "Runs the real command in child processes and compares exit status, streams and effects with a prediction.",
    observe=["exit status, stdout, stderr, destination contents"],
)
prop(
    "C27", "Directory output is faithful JSON lines",
    "Directory output writes one file per sampled table, named after the table, with exactly one JSON object per delivered row that holds every output column once; integers, floats, strings, booleans and nulls keep their value and other types their text form. "
    "Files left by earlier runs are replaced, never appended to or mixed.",
    ["inputs", "configurations"],
    "all schemas, contents (quotes, newlines, unicode), transformations and repeated runs",
    "No test uses directory output with live data.",
    [SAMP],
    [("JSON lines writer", f"{SAMP}: DirectoryOutput.output_result_set")],
    "offline checker over the written files", "Parses every file strictly and compares with the predicted rows.",
    observe=["files in the output directory"],
)
prop(
    "C28", "Transformations compose in the documented order",
    "With any combination of compaction, filters, multiplicity, merging, conflict strategy, remapping, creation and truncation configured together, the destination holds exactly the rows obtained by applying compaction, then filters in order, then multiplicity, then merge shifting to each sampled row, on top of what the destination already held as the conflict strategy says. "
    "References between delivered rows hold whenever filters leave keys alone.",
    ["configurations", "inputs", "histories"],
    "all combinations of sampler settings and existing contents on every dialect",
    "Tests switch on one transformation at a time.",
    [SAMP, FILT, CONF],
    [("copy pipeline", f"{SAMP}: Sampler._copy_results, DatabaseOutput.output_result_set")],
    "reference-model monitor predicting the complete destination", "The predictor is independent code over plain Python rows.",
)
prop(
    "C29", "Under snapshot isolation a sample is one consistent snapshot",
    "With isolation level REPEATABLE READ or SERIALIZABLE on postgres, all rows of a sample reflect one single committed state of the source even while other clients commit changes between any two statements of the run. "
    "At the default level no row torn between two states is delivered.",
    ["schedules", "histories"],
    "all interleavings of concurrent committed writers with the statements of a sampling run",
    "Tests never write to the source during a run.",
    [SAMP, COMM],
    [("one transaction for materialisation and copying", f"{SAMP}: Sampler.sample"), ("isolation level", f"{COMM}: DatabaseConfig.database_engine")],
    "interleaving monitor: writers injected between statements, snapshot oracle", "A writer commits a whole-database version change between chosen statements; delivered rows must all carry one version.",
    observe=["versions carried by delivered rows"],
)
prop(
    "C30", "Concurrent runs do not interfere and leave nothing behind",
    "Several runs sampling the same source at the same time, from one process or several and into different destinations, each deliver exactly what they deliver alone. "
    "After a run, successful or not, no temporary object of it remains visible in the source and running it again delivers the same.",
    ["schedules", "histories"],
    "all interleavings of concurrent runs over the same source, and repeated runs of the same objects",
    "Tests run one subsetting at a time.",
    [SAMP],
    [("connection-private temporary tables", f"{SAMP}: TempTableCreator.create")],
    "stress with barrier-controlled interleavings, result comparison", "Threads and repeated runs with statement level interleaving; each result is compared with the solo result.",
    observe=["delivered rows of each run", "objects visible in the source afterwards"],
)

DONE = set(os.environ.get("DONE", "").split()) or {
    f[:-3].upper() for f in os.listdir(os.path.join(HERE, "harness", "props"))
    if f.startswith("c") and f[1:-3].isdigit()
}

with open(os.path.join(HERE, "properties.jsonl"), "w", encoding="utf-8") as fh:
    for p in P:
        if p["id"] not in DONE and os.environ.get("ALL") != "1":
            continue
        fh.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")

manifest = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": [
        {
            "property": p["id"],
            "quick_cmd": f"./check {p['id']} quick",
            "thorough_cmd": f"./check {p['id']} thorough",
            "technique": "runtime monitoring: " + p["technique"],
            "level": p["level"],
            "level_note": p["note"],
        }
        for p in P if p["id"] in DONE
    ],
    "not_applicable": [],
}
with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as fh:
    json.dump(manifest, fh, indent=1)
    fh.write("\n")
print(len(P), "properties,", len(manifest["checks"]), "checks")
for p in P:
    n = p["statement"].count(". ") + 1
    assert n <= 3, (p["id"], n)
    assert len(p["title"]) <= 80, p["id"]
