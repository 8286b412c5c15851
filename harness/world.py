"""Random source databases: schema graph + rows, as plain Python data.

A world knows nothing about the subject.  Every table carries a `rid` column holding a
distinct integer per row, so that any output row can be traced back to the source row.
"""

from __future__ import annotations

import random
from typing import Any, Dict, List, Optional, Sequence, Tuple

import typed
from dbio import Endpoint

Key = Tuple[str, str]


class Col:
    def __init__(self, name: str, kind: str, nullable: bool = True) -> None:
        self.name = name
        self.kind = kind  # int | bigint | text
        self.nullable = nullable

    def sql_type(self, dialect: str) -> str:
        if self.kind == "int":
            return "INTEGER"
        if self.kind == "bigint":
            return "BIGINT"
        if self.kind in typed.SQL:
            return typed.SQL[self.kind][dialect]
        return "VARCHAR(300)" if self.kind in ("oddtext", "secret") else "VARCHAR(60)"


class FK:
    def __init__(self, cols: Sequence[str], ref: Key, ref_cols: Sequence[str]) -> None:
        self.cols = tuple(cols)
        self.ref = ref
        self.ref_cols = tuple(ref_cols)
        self.late = False  # added after all tables exist (cycles, shuffled creation)

    def ident(self):
        return (self.cols, self.ref, self.ref_cols)

    def __repr__(self) -> str:
        return f"FK({','.join(self.cols)} -> {'.'.join(self.ref)}({','.join(self.ref_cols)}))"


class Table:
    def __init__(self, key: Key) -> None:
        self.key = key
        self.cols: List[Col] = []
        self.pk: Tuple[str, ...] = ()
        self.autoinc = False  # single int PK declared as auto-incrementing
        self.uniques: List[Tuple[str, ...]] = []
        self.indexes: List[Tuple[str, ...]] = []
        self.fks: List[FK] = []
        self.rows: List[Dict[str, Any]] = []
        self.extra: List[Any] = []  # further clauses of the source's definition

    @property
    def full(self) -> str:
        return f"{self.key[0]}.{self.key[1]}"

    def col(self, name: str) -> Col:
        return next(col for col in self.cols if col.name == name)

    def names(self) -> List[str]:
        return [col.name for col in self.cols]

    def fk_cols(self) -> set:
        return {col for fk in self.fks for col in fk.cols}


class World:
    def __init__(self, dialect: str, schemas: List[str]) -> None:
        self.dialect = dialect
        self.schemas = schemas
        self.tables: Dict[Key, Table] = {}  # in creation (topological) order

    def ordered(self) -> List[Table]:
        return list(self.tables.values())

    def describe(self) -> Dict[str, Any]:
        return {
            "dialect": self.dialect,
            "tables": {
                table.full: {
                    "cols": [
                        f"{c.name} {c.kind}{'' if c.nullable else ' not null'}"
                        for c in table.cols
                    ],
                    "pk": list(table.pk),
                    "uniques": [list(u) for u in table.uniques],
                    "fks": [repr(fk) for fk in table.fks],
                    "rows": len(table.rows),
                }
                for table in self.tables.values()
            },
        }


# -- DDL ---------------------------------------------------------------------------------


def create_sql(
    table: Table,
    endpoint: Endpoint,
    *,
    key: Optional[Key] = None,
    schema_map=None,
    fks: Optional[Sequence[FK]] = None,
    table_map=None,
    omit: Sequence[str] = (),
    autoinc: Optional[bool] = None,
    uniques: bool = True,
    generated: Optional[Dict[str, str]] = None,
    clauses: Sequence[str] = (),
) -> str:
    """CREATE TABLE text for `table`, optionally under another key / with other FKs."""
    dialect = endpoint.dialect
    q = endpoint.q
    source = key is None
    key = key or table.key
    fks = table.fks if fks is None else fks
    autoinc = table.autoinc if autoinc is None else autoinc
    parts = []
    inline_pk = False
    for col in table.cols:
        if col.name in omit:
            continue
        text = f"{q(col.name)} {col.sql_type(dialect)}"
        if generated and col.name in generated:
            parts.append(f"{text} GENERATED ALWAYS AS ({generated[col.name]}) STORED")
            continue
        is_pk1 = table.pk == (col.name,)
        if not col.nullable:
            text += " NOT NULL"
        if is_pk1 and autoinc:
            if dialect == "postgres":
                text = f"{q(col.name)} {'SERIAL' if col.kind == 'int' else 'BIGSERIAL'}"
            elif dialect == "mysql":
                text += " AUTO_INCREMENT"
            else:
                text = f"{q(col.name)} INTEGER PRIMARY KEY AUTOINCREMENT"
                inline_pk = True
        parts.append(text)
    if table.pk and not inline_pk and not set(table.pk) & set(omit):
        parts.append(f"PRIMARY KEY ({', '.join(q(c) for c in table.pk)})")
    if uniques:
        for uniq in table.uniques:
            if not set(uniq) & set(omit):
                parts.append(f"UNIQUE ({', '.join(q(c) for c in uniq)})")
    for fk in fks:
        ref = fk.ref
        if fk.late and dialect != "sqlite":
            continue
        if table_map is not None:
            if ref not in table_map:
                continue
            ref = table_map[ref]
        ref_sql = q(ref[1]) if dialect == "sqlite" else endpoint.qt(*ref)
        if dialect == "sqlite" and ref[0] != key[0]:
            continue
        parts.append(
            f"FOREIGN KEY ({', '.join(q(c) for c in fk.cols)}) REFERENCES"
            f" {ref_sql} ({', '.join(q(c) for c in fk.ref_cols)})"
        )
    if source:
        parts.extend(clause(q) for clause in table.extra)
    parts.extend(clauses)
    return f"CREATE TABLE {endpoint.qt(*key)} ({', '.join(parts)})"


def index_sql(table: Table, endpoint: Endpoint, key: Optional[Key] = None) -> List[str]:
    q = endpoint.q
    key = key or table.key
    result = []
    for num, cols in enumerate(table.indexes):
        name = f"ix_{abs(hash_name(table.full)) % 10**6}_{num}"
        on = endpoint.qt(*key)
        full = q(name)
        if endpoint.dialect == "sqlite":
            full = endpoint.qt(key[0], name)
            on = q(key[1])
        result.append(f"CREATE INDEX {full} ON {on} ({', '.join(q(c) for c in cols)})")
    return result


def hash_name(text: str) -> int:
    value = 0
    for ch in text:
        value = (value * 131 + ord(ch)) % (1 << 61)
    return value


def install(world: World, endpoint: Endpoint, order: Optional[List[Table]] = None) -> None:
    """(Re)create the world's tables and rows in the endpoint."""
    endpoint.reset(world.schemas)
    for table in order or world.ordered():
        endpoint.run(create_sql(table, endpoint), *index_sql(table, endpoint))
    if endpoint.dialect != "sqlite":
        for table in world.ordered():
            for fk in table.fks:
                if fk.late:
                    endpoint.run(
                        f"ALTER TABLE {endpoint.qt(*table.key)} ADD FOREIGN KEY"
                        f" ({', '.join(endpoint.q(c) for c in fk.cols)}) REFERENCES"
                        f" {endpoint.qt(*fk.ref)} ({', '.join(endpoint.q(c) for c in fk.ref_cols)})"
                    )
    for table in world.ordered():
        if table.rows:
            names = table.names()
            endpoint.insert(
                *table.key, names,
                [[typed.to_sql(endpoint.dialect, table.col(n).kind, row[n]) if table.col(n).kind in typed.KINDS else row[n]
                  for n in names] for row in table.rows]
            )
        if table.autoinc and endpoint.dialect == "postgres" and table.rows:
            col = table.pk[0]
            top = max(row[col] for row in table.rows)
            if top > 0:
                endpoint.run(
                    "SELECT setval(pg_get_serial_sequence("
                    f"{endpoint.lit(endpoint.qt(*table.key))}, {endpoint.lit(col)}), {top})"
                )


# -- generation --------------------------------------------------------------------------

PLAIN = ["users", "orders", "items", "carts", "tags", "notes", "files", "logs", "teams", "plans"]
ODD = ["Users", "order", "gizmos-foo", "order items", "select", "v1.items", "Größe", "a'b", "group", "x_y",
       'q"t', "T:x", "user_data", "USERS2", "long_" + "n" * 40]


class Shape:
    """Knobs for the generator; defaults give small diverse databases."""

    def __init__(self, **kw: Any) -> None:
        self.tables = (2, 7)
        self.schemas = (1, 2)
        self.rows = (0, 12)
        self.big = 0.0  # probability that a table is big
        self.big_sizes = (1023, 1024, 1025, 1026, 2049, 2050)
        self.odd_names = 0.25
        self.nopk = 0.08
        self.textpk = 0.12
        self.comppk = 0.15
        self.onetoone = 0.1
        self.null_fk = 0.25
        self.max_fks = 3
        self.uniq_ref = 0.2
        self.composite_fk = True
        self.shared_cols = 0.05
        self.neg_ids = 0.1
        self.autoinc = 0.3
        self.fk_prob = 0.85
        self.self_fk = 0.0
        self.same_names = 0.25
        self.uniq_fk = 0.0  # foreign key columns others can refer to
        self.id_max = 60
        self.extra_text = 0.5
        self.uniq = 0.35
        self.bigint = True
        self.typed = None  # kinds of further columns (see typed.py)
        self.typed_count = (0, 0)
        self.odd_text = 0.0  # probability of a column with unusual texts
        self.secret = False  # a text column whose values are found again wherever they go
        self.allpk = 0.04  # tables that consist of their primary key
        self.groups = 0  # columns with few different values
        self.lnk = False  # a column that is empty at first
        self.extra = 0.0  # unique constraints over several columns and checks
        self.pk_flip = 0.0  # composite keys whose columns are in another order than the table's
        self.int_fk_named_pk = 0.3  # FK column carries the referenced PK's name
        for name, value in kw.items():
            if not hasattr(self, name):
                raise TypeError(name)
            setattr(self, name, value)


def gen_world(rng: random.Random, dialect: str, schemas: List[str], shape: Shape) -> World:
    nschemas = min(len(schemas), rng.randint(*shape.schemas))
    schemas = schemas[:nschemas]
    world = World(dialect, schemas)
    count = rng.randint(*shape.tables)
    odd = rng.random() < shape.odd_names
    pool = list(PLAIN)
    if odd:
        pool = rng.sample(ODD, k=min(len(ODD), count + 2)) + pool
        if dialect == "mysql":
            # mysql trims/limits: keep to names valid everywhere
            pool = [n for n in pool if n not in ('q"t',)]
    else:
        rng.shuffle(pool)
    used: set = set()
    for index in range(count):
        schema = rng.choice(schemas)
        name = None
        if world.tables and nschemas > 1 and rng.random() < shape.same_names:
            other = rng.choice(list(world.tables))
            if (schema, other[1]) not in used:
                name = other[1]
        if name is None:
            for cand in pool:
                if (schema, cand) not in used:
                    name = cand
                    break
        if name is None:
            name = f"t{index}"
        lowered = {(s, n.lower()) for s, n in used}
        if (schema, name.lower()) in lowered:
            # sqlite identifiers are case insensitive
            name = f"t{index}"
        used.add((schema, name))
        world.tables[(schema, name)] = _gen_table(rng, world, (schema, name), index, shape)
    return world


def _gen_table(rng, world: World, key: Key, index: int, shape: Shape) -> Table:
    table = Table(key)
    dialect = world.dialect
    refs = [
        t for t in world.ordered()
        if (dialect != "sqlite" or t.key[0] == key[0])
        and (t.pk or t.uniques)
    ]
    fk_specs: List[Tuple[Table, Tuple[str, ...]]] = []
    if refs and rng.random() < shape.fk_prob:
        for _ in range(rng.choice([1, 1, 1, 2, 2, 3][: max(1, shape.max_fks * 2)])):
            target = rng.choice(refs)
            cands = []
            if target.pk and (len(target.pk) == 1 or shape.composite_fk):
                cands.append(target.pk)
            uniq = [u for u in target.uniques if len(u) == 1 or shape.composite_fk]
            if uniq and (not cands or rng.random() < shape.uniq_ref):
                cands = [rng.choice(uniq)]
            if cands:
                fk_specs.append((target, cands[0]))

    pk_style = "int"
    roll = rng.random()
    if roll < shape.nopk:
        pk_style = "none"
    elif roll < shape.nopk + shape.textpk:
        pk_style = "text"
    elif roll < shape.nopk + shape.textpk + shape.comppk:
        pk_style = "comp"
    elif fk_specs and roll < shape.nopk + shape.textpk + shape.comppk + shape.onetoone:
        pk_style = "fk"

    names: set = set()

    def fresh(base: str) -> str:
        name, num = base, 1
        while name.lower() in names:
            num += 1
            name = f"{base}{num}"
        names.add(name.lower())
        return name

    names.update({"rid", "val", "num"})
    cols: List[Col] = []
    pk: Tuple[str, ...] = ()
    chained: List[Tuple[str, ...]] = []  # unique columns that are foreign keys
    if pk_style == "int":
        name = fresh(rng.choice(["id", "id", "id", f"k{index}_id", "ID", "key"]))
        cols.append(Col(name, rng.choice(["int", "int", "bigint" if shape.bigint else "int"]), False))
        pk = (name,)
        table.autoinc = rng.random() < shape.autoinc
        if table.autoinc and dialect == "sqlite":
            cols[-1].kind = "int"
    elif pk_style == "text":
        name = fresh(rng.choice(["code", "id", "slug"]))
        cols.append(Col(name, "text", False))
        pk = (name,)
    elif pk_style == "comp":
        first = Col(fresh(rng.choice(["a", "org", "id"])), "int", False)
        second = Col(fresh(rng.choice(["b", "seq"])), rng.choice(["int", "int", "text"]), False)
        cols.extend([first, second])
        pk = (first.name, second.name)

    # foreign key columns
    for spec_index, (target, ref_cols) in enumerate(fk_specs):
        nullable = rng.random() < 0.5
        local = []
        for ref_col in ref_cols:
            kind = target.col(ref_col).kind
            shared = None
            if rng.random() < shape.shared_cols:
                cands = [c for c in cols if c.kind == kind and c.name not in pk
                         and c.name not in [x.name for x in local]]
                shared = rng.choice(cands) if cands else None
            if shared is not None:
                local.append(shared)
                continue
            base = f"{target.key[1][:12]}_{ref_col}".replace(" ", "_")
            if rng.random() < shape.int_fk_named_pk:
                base = ref_col
            base = rng.choice([base, base, f"ref{spec_index}"])
            base = "".join(ch if ch.isalnum() or ch == "_" else "_" for ch in base)
            if ord(max(base)) > 127:
                base = f"ref{spec_index}"
            col = Col(fresh(base), kind, nullable)
            cols.append(col)
            local.append(col)
        if pk_style == "fk" and spec_index == 0 and not any(c.name in pk for c in local):
            for col in local:
                col.nullable = False
            pk = tuple(c.name for c in local)
        table.fks.append(FK([c.name for c in local], target.key, ref_cols))
        if shape.uniq_fk and rng.random() < shape.uniq_fk:
            chained.append(table.fks[-1].cols)

    # composite key made of foreign keys (join table)
    if pk_style == "comp" and len(fk_specs) >= 2 and rng.random() < 0.5:
        joined = []
        for fk in table.fks[:2]:
            for name in fk.cols:
                if name not in joined:
                    joined.append(name)
        if len(joined) <= 4:
            drop = set(pk) - set(joined)
            cols = [c for c in cols if c.name not in drop]
            pk = tuple(joined)
            for col in cols:
                if col.name in pk:
                    col.nullable = False

    if shape.self_fk and pk and rng.random() < shape.self_fk:
        local = []
        for ref_col in pk:
            kind = next(c.kind for c in cols if c.name == ref_col)
            col = Col(fresh(f"parent_{ref_col}"), kind, True)
            cols.append(col)
            local.append(col)
        table.fks.append(FK([c.name for c in local], key, pk))

    uniques: List[Tuple[str, ...]] = [u for u in dict.fromkeys(chained) if u != pk]
    if rng.random() < shape.uniq:
        name = fresh(rng.choice(["ukey", "email", "alt_id"]))
        cols.append(Col(name, rng.choice(["int", "text"]), rng.random() < 0.3))
        uniques.append((name,))
    cols.append(Col("rid", "int", False))
    cols.append(Col("val", "text", True))
    if rng.random() < shape.extra_text:
        cols.append(Col("num", "int", True))
    if shape.typed:
        for num in range(rng.randint(*shape.typed_count)):
            kind = rng.choice(shape.typed)
            cols.append(Col(rng.choice([f"t_{kind}{num}", f"{kind} {num}", f"T{num}%"]), kind, rng.random() < 0.7))
    if shape.odd_text and rng.random() < shape.odd_text:
        cols.append(Col("odd", "oddtext", True))
    if shape.lnk:
        cols.append(Col("lnk", "int", True))
    if shape.groups:
        taken = {c.name.lower() for c in cols}
        cols.extend(Col(n, "int", True) for n in ("grp", "grp2") if n not in taken and rng.random() < 0.7)
    if shape.secret:
        cols.append(Col("secret", "secret", True))
    if shape.allpk and rng.random() < shape.allpk and len(cols) < 6 and not table.autoinc and all(f.ref != key for f in table.fks):
        cols = [c for c in cols if c.name != "num"]
        for col in cols:
            col.nullable = False
        pk = tuple(c.name for c in cols)
        uniques = []
    if shape.extra:
        table.extra = extra_clauses(rng, table, cols, shape)
    if shape.pk_flip and len(pk) > 1 and rng.random() < shape.pk_flip:
        pk = pk[::-1]
    head = [c for c in cols if c.name in pk]
    rest = [c for c in cols if c.name not in pk]
    if rng.random() < 0.3:
        rng.shuffle(rest)
    if rng.random() < 0.15:
        cols = rest + head
    else:
        cols = head + rest
    table.cols = cols
    table.pk = pk
    table.uniques = uniques
    if rng.random() < 0.3:
        table.indexes.append((rng.choice([c.name for c in cols if c.kind in ("int", "bigint")] or ["rid"]),))
    fill_rows(rng, world, table, shape)
    return table


def gen_value(rng, kind: str, shape: Shape, size: int) -> Any:
    if kind == "text":
        return rng.choice("abcdefgh") + format(rng.randrange(max(size * 6, 40)), "x")
    low = -shape.id_max // 2 if rng.random() < shape.neg_ids else 1
    return rng.randint(low, max(shape.id_max, size * 4))


def extra_clauses(rng: random.Random, table: Table, cols: List[Col], shape: Shape) -> List[Any]:
    result = []
    names = [c.name for c in cols if c.kind in ("int", "bigint", "text") and c.name != "rid"]
    if names and rng.random() < shape.extra:
        mine = rng.sample(names, k=min(len(names), rng.choice([1, 1, 2]))) + ["rid"]
        rng.shuffle(mine)
        named = f"uq_{hash_name(table.full) % 10**6}" if rng.random() < 0.4 else None
        result.append(lambda q: f"{f'CONSTRAINT {q(named)} ' if named else ''}UNIQUE ({', '.join(map(q, mine))})")
    for num in range(rng.choice([1, 1, 2]) if rng.random() < shape.extra else 0):
        name = f"{rng.choice(['ck', 'Check It', 'check'])}_{hash_name(table.full) % 10**6}_{num}" if rng.random() < 0.5 else None
        text = rng.choice([
            lambda q: f"{q('rid')} <> -{num + 77}", lambda q: f"{q('val')} IS NULL OR {q('val')} <> 'a:b{num}'",
            lambda q: f"({q('rid')} + {num}) > 0 AND {q('val')} <> '50%'", lambda q: f"{q('val')} NOT LIKE '%(~%'",
            lambda q: f"{q('rid')} NOT IN (-5, -6) OR {q('val')} = '~) (x{num}'",
        ])
        result.append(lambda q, name=name, text=text: f"{f'CONSTRAINT {q(name)} ' if name else ''}CHECK ({text(q)})")
    return result


def fill_rows(rng, world: World, table: Table, shape: Shape) -> None:
    if rng.random() < shape.big:
        size = rng.choice(shape.big_sizes)
    else:
        size = rng.randint(*shape.rows)
        if rng.random() < 0.05:
            size = 0
    fk_by_col = {}
    for fk in table.fks:
        for col in fk.cols:
            fk_by_col.setdefault(col, []).append(fk)
    seen_pk: set = set()
    seen_uniq: Dict[Tuple[str, ...], set] = {u: set() for u in table.uniques}
    rid0 = rng.choice([1, 1000, 5])
    attempts = 0
    neg_ok = rng.random() < 0.5
    while len(table.rows) < size and attempts < size * 6 + 20:
        attempts += 1
        row: Dict[str, Any] = {}
        ok = True
        for fk in table.fks:
            ref_rows = table.rows if fk.ref == table.key else world.tables[fk.ref].rows
            ref_rows = [
                r for r in (ref_rows if len(ref_rows) < 60 else rng.sample(ref_rows, 60))
                if all(r[c] is not None for c in fk.ref_cols)
                and all(row.get(lc, r[rc]) == r[rc] for lc, rc in zip(fk.cols, fk.ref_cols))
            ]
            can_null = [c for c in fk.cols if table.col(c).nullable and c not in row]
            already_null = any(c in row and row[c] is None for c in fk.cols)
            if already_null or (can_null and (not ref_rows or rng.random() < shape.null_fk)):
                # a null anywhere makes the reference void; other columns are arbitrary
                nulls = set(can_null) if (rng.random() < 0.7 or not can_null) else {rng.choice(can_null)}
                for c in fk.cols:
                    if c in row:
                        continue
                    if c in nulls:
                        row[c] = None
                    else:
                        row[c] = gen_value(rng, table.col(c).kind, shape, size)
                if not any(row[c] is None for c in fk.cols):
                    ok = False
                continue
            if not ref_rows:
                ok = False
                break
            ref = rng.choice(ref_rows)
            for lc, rc in zip(fk.cols, fk.ref_cols):
                row[lc] = ref[rc]
        if not ok or not _fks_ok(world, table, row):
            continue
        for col in table.cols:
            if col.name in row:
                continue
            if col.name == "rid":
                row["rid"] = rid0 + len(table.rows)
            elif col.name == "val":
                row["val"] = (
                    None if rng.random() < 0.2
                    else f"{rng.choice('abcxyz')}{rng.randrange(40)}"
                )
            elif col.name == "lnk":
                row["lnk"] = None
            elif col.name in ("grp", "grp2") and shape.groups:
                row[col.name] = None if rng.random() < 0.1 else rng.randint(1, shape.groups)
            elif col.name == "num":
                row["num"] = None if rng.random() < 0.2 else rng.randint(-20, 100)
            elif col.kind == "oddtext":
                row[col.name] = None if rng.random() < 0.1 else rng.choice(typed.TEXTS)
            elif col.kind == "secret":
                row[col.name] = None if rng.random() < 0.05 else f"S~{rng.getrandbits(56):x}~S"
            elif col.kind in typed.KINDS:
                row[col.name] = None if col.nullable and rng.random() < 0.15 else typed.value(rng, col.kind)
            elif col.nullable and rng.random() < 0.3:
                row[col.name] = None
            else:
                value = gen_value(rng, col.kind, shape, size)
                if col.kind != "text" and not neg_ok:
                    value = abs(value) or 1
                if value == 0 and table.autoinc and (col.name,) == table.pk:
                    # mysql takes 0 as a request to generate a value
                    value = shape.id_max + 1
                row[col.name] = value
        pkval = tuple(row[c] for c in table.pk)
        if table.pk and (pkval in seen_pk or None in pkval):
            continue
        bad = False
        for uniq, seen in seen_uniq.items():
            val = tuple(row[c] for c in uniq)
            if None not in val and val in seen:
                bad = True
        if bad:
            continue
        seen_pk.add(pkval)
        for uniq, seen in seen_uniq.items():
            seen.add(tuple(row[c] for c in uniq))
        table.rows.append(row)
    # rid order must not coincide with key order
    rids = [row["rid"] for row in table.rows]
    rng.shuffle(rids)
    for row, rid in zip(table.rows, rids):
        row["rid"] = rid


def refill(rng, world: World, shape: Shape, rid_shift: int = 100000) -> World:
    """Another data set for the same tables (rows independent of the given world's)."""
    other = World(world.dialect, world.schemas)
    for table in world.ordered():
        twin = Table(table.key)
        twin.cols, twin.pk, twin.autoinc = table.cols, table.pk, table.autoinc
        twin.uniques, twin.indexes, twin.fks = table.uniques, table.indexes, table.fks
        other.tables[table.key] = twin
        fill_rows(rng, other, twin, shape)
        for row in twin.rows:
            row["rid"] += rid_shift
    return other


def _fks_ok(world: World, table: Table, row: Dict[str, Any]) -> bool:
    """Shared columns may break an earlier choice; re-check every reference."""
    for fk in table.fks:
        vals = tuple(row.get(c) for c in fk.cols)
        if None in vals:
            continue
        ref_rows = table.rows if fk.ref == table.key else world.tables[fk.ref].rows
        if len(ref_rows) < 50:
            if not any(tuple(r[c] for c in fk.ref_cols) == vals for r in ref_rows):
                return False
            continue
        # (rows are only ever added while tables are filled)
        cache = world.__dict__.setdefault("ref_values", {})
        entry = cache.get((fk.ref, fk.ref_cols))
        if entry is None or entry[0] is not ref_rows:
            entry = cache[(fk.ref, fk.ref_cols)] = [ref_rows, 0, set()]
        for r in ref_rows[entry[1]:]:
            entry[2].add(tuple(r[c] for c in fk.ref_cols))
        entry[1] = len(ref_rows)
        if vals not in entry[2]:
            return False
    return True
