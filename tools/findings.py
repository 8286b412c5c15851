#!/usr/bin/env python3
"""Writes known_findings.json (by hand, when a finding or a fix is added; never by a check)."""
import json
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = [
    ("C09", "postgres cannot build the union of selections from a table that has a column of type json",
     "postgres source, a table with a column of type json (not jsonb) that is selected by a union of several selections (several rows of the "
     "plan's statements): could not identify an equality operator for type json."),
    ("C19", "the fake_license_plate filter fails whenever it is used (it asks faker for licence_plate)",
     "op: fake_license_plate on any column: AttributeError, Generator has no attribute licence_plate. The repository's own test "
     "tests/test_filters.py::test_fake_filters mocks the misspelt name, so the one-letter repair fails that test and cannot be made here."),
    ("C27", "NaN and infinite floats are written as NaN and Infinity, which are no JSON",
     "A float column holding NaN or an infinity (postgres, sqlite with 9e999) and directory output: the line holds the bare token NaN or "
     "Infinity, which strict JSON readers refuse (Python's own reads it back). JSON has no such numbers; whether to write null, text or to "
     "fail is the maintainers' decision, so it is recorded."),
]
FIXED = [
    ("C02 C08", "do not drop joins when simplifying", "simplifying a union of selects dropped their joins and selected other rows"),
    ("C03", "wrap limited selects", "a target with amount that other tables also need gave a syntax error or limited the whole union"),
    ("C12", "multiply foreign key columns", "foreign key columns named unlike the column they refer to were not multiplied"),
    ("C04 C05", "allow foreign keys to unselected", "planning failed when a selected table refers to an unselected one"),
    ("C18", "allow omitting primary key", "omitting a primary key column failed with database output"),
    ("C14", "only replace sampled columns", "replace on sqlite overwrote columns the sample does not contain"),
    ("C03", "percent targets on sqlite", "percent targets on sqlite kept about the wrong share of the rows"),
    ("C03", "apply table constraints to targetted", "table constraints were not applied to targets"),
    ("C16 C23", "raise an error if sampled tables do not exist", "missing destination tables were not reported before changing the destination"),
    ("C11 C23", "always validate compacted columns", "illegal compaction was accepted or refused only after truncation"),
    ("C16", "allow creating tables with foreign keys", "creation failed with foreign keys to tables outside of the sample"),
    ("C13", "allow merging tables with foreign keys", "merging failed with foreign keys to tables outside of the sample"),
    ("C20", "quote sequence lookups", "auto-increment update failed on odd names and moved generators backwards"),
    ("C16 C20", "do not make integer primary keys", "integer keys became auto-increment at creation although they are not in the source"),
    ("C16", "limit the length of generated index", "creation failed on long table and column names"),
    ("C26 C27", "sampler config is optional", "sampling without sampler section and into a missing directory failed"),
    ("C24", "honor dialect from the environment", "dialect from the environment was ignored for isolation level, attached databases and ssl"),
    ("C24", "keep session settings", "session statements were rolled back on postgres"),
    ("C08", "support direct SQL queries", "plan queries given as sql failed when referenced or compacted"),
    ("C11", "join on all foreign key columns", "compaction joined composite foreign keys on one column and duplicated rows"),
    ("C11", "allow compaction with plans", "compaction failed with plans that select some columns"),
    ("C02 C03", "parenthesize sql conditions", "sql conditions containing OR were combined without parentheses"),
    ("C18 C23", "omit filters must refer", "omit filters accepted columns that do not exist"),
    ("C03", "targets selecting all rows ignore", "all: true did not override amount"),
    ("C09 C30", "avoid temporary table names", "materialised tables whose names differ by case collided"),
    ("C11", "alias every table joined", "compacting several foreign keys to the same table failed"),
    ("C11", "allow compaction to start at negative", "negative start_key failed on mysql"),
    ("C13", "merge primary keys that refer", "keys that are foreign keys were shifted inconsistently when merging"),
    ("C09 C27", "keep the precision of mysql floating", "mysql FLOAT values were rounded"),
    ("C08", "keep parameters of different sql", "equally named parameters of different sql conditions overwrote each other"),
    ("C24", "apply the certificate verification", "server verification settings had no effect on mysql"),
    ("C16", "create primary keys with their columns", "composite primary keys were created in column order, foreign keys to them failed on mysql"),
    ("C16", "create check constraints containing colons", "colons in check constraints were taken for parameters"),
    ("C16", "create partial indexes on conditions", "colons in partial index conditions were taken for parameters"),
    ("C24", "quote the aliases", "aliases of attached sqlite databases that are no plain identifier failed"),
    ("C24", "allow null for attached", "sqlite_databases: null failed"),
    ("C23", "reject plans that do not fit the source", "a plan naming tables or columns the source lacks failed only after truncation"),
    ("C23", "find missing destination columns", "destination tables lacking sampled columns were noticed only after truncation"),
    ("C26", "keep echoed statements out", "-vvv and echo mixed log lines into the plan on standard output"),
    ("C23", "reject empty random_int ranges", "an empty random_int range was noticed only after truncation"),
] + [tuple(e) for e in json.load(open(os.path.join(HERE, "tools", "more_fixed.json"), encoding="utf-8"))]

log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True, check=True).stdout.splitlines()
fixes = {line for line in log if " fix: " in line}
fixed = []
for props, start, what in FIXED:
    hit = [line for line in fixes if line.split(" ", 1)[1].startswith(f"fix: {start}")]
    hit = [line for line in hit if line.endswith(f" fix: {start}")] or hit
    if len(hit) != 1:
        raise SystemExit(f"{start}: {hit}")
    fixes -= set(hit)
    for prop in props.split():
        fixed.append(f"fixed: property={prop} {hit[0].split()[0]} {what}")
if fixes:
    raise SystemExit(f"not listed: {fixes}")
with open(os.path.join(HERE, "known_findings.json"), "w", encoding="utf-8") as fh:
    json.dump({"known": [dict(zip(("property", "what", "details"), k)) for k in KNOWN], "fixed": fixed}, fh, indent=1)
    fh.write("\n")
print(len(fixed), "fixed")
