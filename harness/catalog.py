"""Reads table definitions from the databases' own catalogues with plain drivers."""

from __future__ import annotations

from typing import Any, Dict, List, Tuple

Key = Tuple[str, str]


def describe(ep, key: Key) -> Dict[str, Any]:
    """columns [(name, type, nullable, generates)], pk, uniques, indexes, fks, checks of one table."""
    return {"sqlite": _sqlite, "postgres": _postgres, "mysql": _mysql}[ep.dialect](ep, *key)


def _sqlite(ep, schema: str, table: str) -> Dict[str, Any]:
    info = ep.rows(f"PRAGMA {ep.q(schema)}.table_info({ep.q(table)})")
    cols = [(r[1], _squeeze(r[2]), not r[3], None) for r in info]
    pk = [r[1] for r in sorted((r for r in info if r[5]), key=lambda r: r[5])]
    uniques, indexes = set(), set()
    partial = []
    for _, name, unique, origin, part in ep.rows(f"PRAGMA {ep.q(schema)}.index_list({ep.q(table)})"):
        names = tuple(r[2] for r in ep.rows(f"PRAGMA {ep.q(schema)}.index_info({ep.q(name)})"))
        if part:
            sql = ep.rows(f"SELECT sql FROM {ep.q(schema)}.sqlite_master WHERE type = 'index' AND name = {ep.lit(name)}")[0][0]
            partial.append((names, sql.rsplit("WHERE", 1)[1].strip()))
        if origin == "pk":
            continue
        (uniques if unique else indexes).add(names)
    fks: Dict[int, Dict[str, Any]] = {}
    for num, seq, ref, col, ref_col, *_ in ep.rows(f"PRAGMA {ep.q(schema)}.foreign_key_list({ep.q(table)})"):
        one = fks.setdefault(num, {"ref": (schema, ref), "pairs": {}})
        one["pairs"][seq] = (col, ref_col)
    return {
        "columns": cols, "pk": pk, "uniques": uniques, "indexes": indexes,
        "fks": {(one["ref"], frozenset(one["pairs"].values())) for one in fks.values()},
        "partial": sorted(partial), "checks": _sqlite_checks(ep, schema, table),
    }


def _sqlite_checks(ep, schema: str, table: str) -> set:
    """The conditions of all CHECK clauses, without white space."""
    sql = ep.rows(f"SELECT sql FROM {ep.q(schema)}.sqlite_master WHERE type = 'table' AND name = {ep.lit(table)}")[0][0]
    result, depth, start, at, word = set(), 0, None, 0, ""
    while at < len(sql):
        char = sql[at]
        if char in "'\"`":
            # (a doubled quote reads as two strings, which is as good)
            at = sql.index(char, at + 1)
            word = ""
        elif char == "(":
            depth += 1
            if start is None and word.upper() == "CHECK":
                start = (depth, at + 1)
            word = ""
        elif char == ")":
            if start and start[0] == depth:
                result.add("".join(sql[start[1]:at].split()))
                start = None
            depth -= 1
            word = ""
        elif char.isalpha() or char == "_":
            word += char
        elif not char.isspace():
            word = ""
        elif at + 1 < len(sql) and sql[at + 1].isalpha():
            word = ""
        at += 1
    return result


def _squeeze(text: str) -> str:
    text = "".join(ch for ch in text.upper() if ch not in " _")
    return {"DOUBLEPRECISION": "REAL", "DOUBLE": "REAL"}.get(text, text)


def _postgres(ep, schema: str, table: str) -> Dict[str, Any]:
    oid = ep.rows(
        f"SELECT c.oid FROM pg_class c JOIN pg_namespace n ON n.oid = c.relnamespace"
        f" WHERE n.nspname = {ep.lit(schema)} AND c.relname = {ep.lit(table)} AND c.relkind IN ('r', 'p')")[0][0]
    names = {}
    cols = []
    for num, name, kind, notnull in ep.rows(
        f"SELECT attnum, attname, format_type(atttypid, atttypmod), attnotnull FROM pg_attribute"
        f" WHERE attrelid = {oid} AND attnum > 0 AND NOT attisdropped ORDER BY attnum"
    ):
        seq = ep.rows(f"SELECT pg_get_serial_sequence({ep.lit(ep.qt(schema, table))}, {ep.lit(name)})")[0][0]
        names[num] = name
        cols.append((name, kind, not notnull, seq is not None))
    pk: List[str] = []
    uniques, indexes, fks = set(), set(), set()
    for kind, conkey, ref, confkey in ep.rows(
        f"SELECT contype, conkey, confrelid, confkey FROM pg_constraint WHERE conrelid = {oid} AND contype IN ('p', 'u', 'f')"
    ):
        mine = [names[n] for n in conkey]
        if kind == "p":
            pk = mine
        elif kind == "u":
            uniques.add(tuple(mine))
        else:
            target = ep.rows(f"SELECT n.nspname, c.relname FROM pg_class c JOIN pg_namespace n ON n.oid = c.relnamespace WHERE c.oid = {ref}")[0]
            theirs = dict(ep.rows(f"SELECT attnum, attname FROM pg_attribute WHERE attrelid = {ref}"))
            fks.add((tuple(target), frozenset(zip(mine, [theirs[n] for n in confkey]))))
    partial = []
    for unique, keys, pred, primary in ep.rows(
        f"SELECT indisunique, indkey::text, pg_get_expr(indpred, indrelid), indisprimary FROM pg_index WHERE indrelid = {oid}"
    ):
        if primary:
            continue
        mine_t = tuple(names.get(int(n)) for n in keys.split())
        if pred:
            partial.append((mine_t, pred))
        (uniques if unique else indexes).add(mine_t)
    checks = {r[0] for r in ep.rows(f"SELECT pg_get_constraintdef(oid) FROM pg_constraint WHERE conrelid = {oid} AND contype = 'c'")}
    return {"columns": cols, "pk": pk, "uniques": uniques, "indexes": indexes, "fks": fks, "partial": sorted(partial), "checks": checks}


def _mysql(ep, schema: str, table: str) -> Dict[str, Any]:
    where = f"table_schema = {ep.lit(schema)} AND table_name = {ep.lit(table)}"
    cols = [
        (name, kind.decode() if isinstance(kind, bytes) else kind, nullable == "YES", "auto_increment" in extra)
        for name, kind, nullable, extra in ep.rows(
            f"SELECT column_name, column_type, is_nullable, extra FROM information_schema.columns WHERE {where} ORDER BY ordinal_position")
    ]
    found: Dict[str, List[Any]] = {}
    for name, non_unique, col in ep.rows(
        f"SELECT index_name, non_unique, column_name FROM information_schema.statistics WHERE {where} ORDER BY index_name, seq_in_index"
    ):
        found.setdefault(name, [non_unique, []])[1].append(col)
    pk = found.pop("PRIMARY", [0, []])[1]
    uniques = {tuple(names) for non_unique, names in found.values() if not non_unique}
    indexes = {tuple(names) for non_unique, names in found.values() if non_unique}
    fks: Dict[str, Dict[str, Any]] = {}
    for name, col, rschema, rtable, rcol in ep.rows(
        "SELECT constraint_name, column_name, referenced_table_schema, referenced_table_name, referenced_column_name"
        f" FROM information_schema.key_column_usage WHERE {where} AND referenced_table_name IS NOT NULL ORDER BY ordinal_position"
    ):
        one = fks.setdefault(name, {"ref": (rschema, rtable), "pairs": set()})
        one["pairs"].add((col, rcol))
    return {
        "columns": cols, "pk": pk, "uniques": uniques, "indexes": indexes,
        "fks": {(one["ref"], frozenset(one["pairs"])) for one in fks.values()}, "partial": [],
        "checks": {
            r[0] for r in ep.rows(
                "SELECT c.check_clause FROM information_schema.check_constraints c JOIN information_schema.table_constraints t"
                " ON t.constraint_schema = c.constraint_schema AND t.constraint_name = c.constraint_name"
                f" WHERE t.table_schema = {ep.lit(schema)} AND t.table_name = {ep.lit(table)}")
        },
    }
