"""Scenario pieces shared by the properties: planner configs, destinations, read-back."""

from __future__ import annotations

import collections
import re
from typing import Any, Dict, List, Optional, Sequence, Set, Tuple

import planoracle as po
import subj
from dbio import Endpoint
from runner import Ctx, Skip, Violation
from world import FK, Key, Shape, Table, World, create_sql, gen_world, index_sql, install

WEIGHTS = {"sqlite": 6, "postgres": 3, "mysql": 2}


def pick_dialect(ctx: Ctx, weights: Optional[Dict[str, int]] = None) -> str:
    weights = weights or WEIGHTS
    have = [d for d in ctx.bench.dialects() if weights.get(d)]
    return ctx.rng.choices(have, [weights[d] for d in have])[0]


def make_world(ctx: Ctx, dialect: str, shape: Shape, role: str = "s", pull: bool = True) -> Tuple[World, Endpoint]:
    endpoint = ctx.bench.get(dialect, role)
    schemas = schema_names(ctx, dialect, role)
    if ctx.rng.random() < 0.3:
        schemas = schemas[::-1]
    world = gen_world(ctx.rng, dialect, schemas, shape)
    install(world, endpoint)
    search_path(ctx, endpoint)
    return world, endpoint


def schema_names(ctx: Ctx, dialect: str, role: str = "s") -> List[str]:
    """Two schemas; on postgres often one that is on the search path."""
    if dialect == "sqlite":
        names = ["main", "aux"]
    elif dialect == "postgres" and ctx.rng.random() < 0.5:
        names = ctx.rng.choice([["public", "beta"], ["alpha", "public"]])
    else:
        names = ["alpha", "beta"]
    return [ctx.bench.schema(dialect, role, n) for n in names]


def search_path(ctx: Ctx, endpoint: Endpoint) -> None:
    """Now and then a session of its own search path (postgres); which one must not matter."""
    if endpoint.dialect == "postgres" and ctx.rng.random() < 0.25:
        names = ctx.rng.sample(endpoint.schemas, ctx.rng.randint(1, len(endpoint.schemas)))
        endpoint.session = ["SET search_path TO " + ", ".join(endpoint.q(n) for n in names)]


def full(key: Key) -> str:
    return f"{key[0]}.{key[1]}"


# -- planner configuration ---------------------------------------------------------------


def gen_target(rng, endpoint: Endpoint, table: Table, random_ok: bool) -> Tuple[Dict[str, Any], Any]:
    spec: Dict[str, Any] = {}
    fn = None
    roll = rng.random()
    if roll < 0.15:
        spec["all"] = True
        if rng.random() < 0.4:
            # everything else must be overridden
            spec["in"] = {"rid": [-1]}
            if rng.random() < 0.5:
                spec[rng.choice(["amount", "percent"])] = rng.choice([0, 1, 2])
        return spec, None
    pool = ["in", "like", "sql"]
    if random_ok:
        pool += ["amount", "amount", "percent"]
    kinds = set(rng.sample(pool, k=rng.choice([1, 1, 1, 2, 2, 3])))
    if "in" in kinds:
        cols = [c for c in table.cols if c.name in ("rid", "val", "num") or c.name in table.pk]
        col = rng.choice(cols)
        vals = [r[col.name] for r in table.rows if r[col.name] is not None]
        chosen = rng.sample(vals, k=min(len(vals), rng.randint(1, max(6, len(vals) // 2)))) if vals else []
        if rng.random() < 0.3:
            chosen.append("zz~" if col.kind == "text" else 987654)
        if not chosen:
            chosen = ["zz~"] if col.kind == "text" else [987654]
        spec["in"] = {col.name: sorted(set(chosen))}
        if rng.random() < 0.25 and col.name != "rid":
            rids = [r["rid"] for r in table.rows]
            spec["in"]["rid"] = sorted(rng.sample(rids, k=max(1, len(rids) // 2))) if rids else [1]
    if "like" in kinds:
        pats = [rng.choice(["a%", "%1%", "_1%", "%", "b%", "%2", "x_", "c%"])]
        if rng.random() < 0.3:
            pats.append(rng.choice(["%1%", "%", "_2%", "%3"]))
        spec["like"] = {"val": pats}
    if "sql" in kinds:
        for _ in range(10):
            text, fn = po.sql_cond(rng, endpoint, table)
            if fn is not None:
                break
            rids = {r["rid"] for r in table.rows}
            fn = lambda row, rids=rids: row["rid"] + 1 in rids  # noqa: E731
            break
        spec["sql"] = text
    if "amount" in kinds:
        spec["amount"] = rng.choice([0, 1, 2, 3, 5, len(table.rows), len(table.rows) + 3])
    if "percent" in kinds:
        spec["percent"] = rng.choice([0.0, 100.0, 50.0, 20.0])
    return spec, fn


def gen_planner(
    ctx: Ctx,
    world: World,
    endpoint: Endpoint,
    *,
    random_ok: bool = False,
    passthrough: float = 0.3,
    ignore: float = 0.15,
    knobs: float = 0.25,
    constraints: float = 0.3,
    max_targets: int = 3,
    valid_only: bool = True,
    subset_select: float = 0.35,
    dense: float = 0.0,
) -> Tuple[Dict[str, Any], Dict[Key, Any], po.Graph]:
    rng = ctx.rng
    for attempt in range(60):
        cfg, fns = _gen_planner_once(
            rng, world, endpoint, random_ok, passthrough, ignore, knobs, constraints,
            max_targets, subset_select,
        )
        if dense and rng.random() < dense and attempt < 40:
            _add_dense(ctx, rng, world, cfg, fns)
        graph = po.Graph(world, cfg)
        if graph.mistyped():
            continue
        if not valid_only or not graph.errors:
            if valid_only and not _constraints_ok(graph):
                cfg.pop("table_constraints", None)
            return cfg, fns, po.Graph(world, cfg)
    raise Skip("no valid planner configuration for this world")


def _constraints_ok(graph: po.Graph) -> bool:
    return True


def _gen_planner_once(rng, world, endpoint, random_ok, p_pass, p_ign, p_knobs, p_cons, max_targets, p_subset):
    cfg: Dict[str, Any] = {}
    keys = list(world.tables)
    refd = {fk.ref for t in world.ordered() for fk in t.fks}
    if rng.random() < p_subset:
        chosen = rng.sample(keys, k=rng.randint(1, len(keys)))
        patterns = [full(k) for k in chosen]
        if rng.random() < 0.2:
            patterns.append(rng.choice(keys)[0] + ".*")
    else:
        chosen = keys
        patterns = sorted({f"{s}.*" for s, _ in keys}) if rng.random() < 0.7 else ["*"]
        if rng.random() < 0.2:
            patterns.append("nosuch.*")
    rng.shuffle(patterns)
    cfg["select"] = patterns
    cfg["include_dependencies"] = rng.random() >= 0.2 * (p_knobs > 0)
    if cfg["include_dependencies"] and rng.random() < 0.5:
        del cfg["include_dependencies"]
    if rng.random() < p_pass:
        cand = [k for k in keys if all(fk.ref != k or True for fk in world.tables[k].fks)]
        picks = rng.sample(cand, k=rng.choice([1, 1, 2]) if len(cand) > 1 else 1)
        closed: Set[Key] = set(picks)
        if rng.random() < 0.8:
            todo = list(picks)
            while todo:
                for fk in world.tables[todo.pop()].fks:
                    if fk.ref not in closed:
                        closed.add(fk.ref)
                        todo.append(fk.ref)
        names = [full(k) for k in sorted(closed)]
        rng.shuffle(names)
        cfg["passthrough"] = names
    if rng.random() < p_ign:
        free = [k for k in keys if k not in refd] or keys
        cfg["ignore"] = [full(rng.choice(free if rng.random() < 0.8 else keys))]
    if rng.random() < p_knobs:
        withfk = [(t.key, fk) for t in world.ordered() for fk in t.fks]
        if withfk:
            cfg["ignore_fks"] = [
                {"src_table": full(k), "dst_table": full(fk.ref)}
                for k, fk in rng.sample(withfk, k=min(len(withfk), rng.choice([1, 1, 2])))
            ]
    # self references always need to be ignored
    selfs = [t.key for t in world.ordered() if any(fk.ref == t.key for fk in t.fks)]
    if selfs:
        cfg.setdefault("ignore_fks", [])
        for key in selfs:
            if rng.random() < 0.95:
                cfg["ignore_fks"].append({"src_table": full(key), "dst_table": full(key)})
    if rng.random() < p_knobs:
        extra = []
        for _ in range(rng.choice([1, 1, 2])):
            pair = _extra_fk(rng, world)
            if pair:
                extra.append(pair)
        if extra:
            cfg["extra_fks"] = extra
    if rng.random() < p_knobs * 0.6:
        cfg["infer_foreign_keys"] = rng.choice(["schema", "all", "none"])
    pool = [k for k in (chosen if rng.random() < 0.9 else keys)]
    pool = [k for k in pool if full(k) not in cfg.get("passthrough", []) and full(k) not in cfg.get("ignore", [])]
    pool = pool or keys
    targets = rng.sample(pool, k=min(len(pool), rng.choice([1, 1, 1, 2, 2, 3][: max_targets * 2])))
    cfg["targets"] = {}
    fns: Dict[Key, Any] = {}
    for key in targets:
        spec, fn = gen_target(rng, endpoint, world.tables[key], random_ok)
        cfg["targets"][full(key)] = spec
        fns[key] = fn
    if rng.random() < p_cons:
        cons: Dict[str, Any] = {}
        for key in rng.sample(keys, k=rng.choice([1, 1, 2]) if len(keys) > 1 else 1):
            if cfg["targets"].get(full(key), {}).get("all"):
                continue
            table = world.tables[key]
            items = []
            for _ in range(rng.choice([1, 1, 2])):
                if rng.random() < 0.6:
                    items.append({
                        "column": "rid", "operator": rng.choice(["<", ">", "=", "<>", "!="]),
                        "value": rng.choice([r["rid"] for r in table.rows] or [3]),
                    })
                else:
                    op = rng.choice(["like", "not like", "=", "<>"])
                    items.append({
                        "column": "val", "operator": op,
                        "value": rng.choice(["a%", "%1%", "b%"]) if "like" in op
                        else rng.choice([r["val"] for r in table.rows if r["val"]] or ["a1"]),
                    })
            cons[full(key)] = items
        if cons:
            cfg["table_constraints"] = cons
    return cfg, fns


def _add_dense(ctx: Ctx, rng, world: World, cfg: Dict[str, Any], fns: Dict[Key, Any]) -> None:
    """Several more relations from one table that already has some, onto columns that need not be unique."""
    order = world.ordered()
    pool = [n for n, t in enumerate(order) if n and t.fks]
    if not pool:
        return
    num = rng.choice(pool)
    src = order[num]
    refs = [world.tables[fk.ref] for fk in src.fks if fk.ref != src.key]
    added = 0
    for dst in rng.sample(order[:num], k=min(num, 2)) + rng.sample(refs, k=min(len(refs), 1)):
        pair = _extra_fk(rng, world, src, dst)
        if pair:
            cfg.setdefault("extra_fks", []).append(pair)
            added += 1
    if added and len(cfg["targets"]) > 1 and full(src.key) in cfg["targets"] and rng.random() < 0.8:
        del cfg["targets"][full(src.key)]
        fns.pop(src.key, None)
    ctx.count("dense", added > 1)


def _extra_fk(rng, world: World, src=None, dst=None):
    given = src is not None
    for _ in range(12):
        if not given:
            src = rng.choice(list(world.tables.values()))
            dst = rng.choice(list(world.tables.values()))
        if src is dst:
            continue
        pairs = [
            (a.name, b.name) for a in src.cols for b in dst.cols
            if (a.kind == "text") == (b.kind == "text") and a.name != "rid"
            and {a.kind, b.kind} <= {"int", "bigint", "text"}
        ]
        if given and rng.random() < 0.8 and any(c.name in ("grp", "grp2") for c in dst.cols):
            pairs = [p for p in pairs if p[0] in ("grp", "grp2") and p[1] in ("grp", "grp2")] or pairs
        elif given and rng.random() < 0.8:
            # not unique
            pairs = [p for p in pairs if p[1] != "rid" and (p[1],) != tuple(dst.pk) and [p[1]] not in [list(u) for u in dst.uniques]]
        if not pairs:
            continue
        if rng.random() < 0.15 and len(pairs) > 3:
            first, second = rng.sample(pairs, 2)
            if first[0] != second[0] and first[1] != second[1]:
                return {"src_table": full(src.key), "src_columns": [first[0], second[0]],
                        "dst_table": full(dst.key), "dst_columns": [first[1], second[1]]}
        a, b = rng.choice(pairs)
        return {"src_table": full(src.key), "src_columns": [a],
                "dst_table": full(dst.key), "dst_columns": [b]}
    return None


# -- running -----------------------------------------------------------------------------


def run_plan(ctx: Ctx, source: Endpoint, cfg: Dict[str, Any], src_cfg: Optional[Dict[str, Any]] = None):
    """Plan with the subject; any error on a valid configuration is a violation."""
    ctx.judging()
    source.close()
    try:
        plan = subj.plan(src_cfg or source.config(), cfg)
    except Exception as exc:
        raise Violation(
            f"planning failed on a valid configuration: {type(exc).__name__}: {exc}"[:600],
            planner=cfg,
        ) from exc
    finally:
        subj.close_all()
    ctx.count("plans")
    return plan


def run_sample(ctx: Ctx, source: Endpoint, dest: Optional[Endpoint], sampler: Dict[str, Any], plan,
               src_cfg: Optional[Dict[str, Any]] = None, **kw) -> None:
    ctx.judging()
    source.close()
    if dest is not None:
        dest.close()
    try:
        subj.sample(src_cfg or source.config(), sampler, plan, **kw)
    except Exception as exc:
        raise Violation(
            f"sampling failed on a valid configuration: {type(exc).__name__}: {exc}"[:800],
            sampler=sampler, plan=subj.dump_plan(plan), kw=kw,
        ) from exc
    finally:
        subj.close_all()
    ctx.count("samples")


class Dest:
    """A destination database and where each source table ends up in it."""

    def __init__(self, ctx: Ctx, world: World, dialect: Optional[str] = None, role: str = "d",
                 remap: Optional[str] = None) -> None:
        self.ctx = ctx
        self.dialect = dialect or world.dialect
        self.endpoint = ctx.bench.get(self.dialect, role)
        self.world = world
        self.remap: List[Dict[str, str]] = []
        self.keys: Dict[Key, Key] = {}
        self.schema_map: Dict[str, str] = {}
        first = {"main": "alpha", "aux": "beta"}
        if self.dialect == "postgres" and ctx.rng.random() < 0.4:
            first[ctx.rng.choice(sorted(first))] = "public"
        for schema in world.schemas:
            base = schema.split("_", 1)[1] if world.dialect == "mysql" else schema
            if self.dialect == world.dialect and self.dialect != "mysql":
                mapped = base
            elif self.dialect == "sqlite":
                if base == "public":
                    base = "beta" if "alpha" in world.schemas else "alpha"
                mapped = {"alpha": "main", "beta": "aux"}[base]
            else:
                mapped = ctx.bench.schema(self.dialect, role, first.get(base, base))
            self.schema_map[schema] = mapped
            if mapped != schema:
                self.remap.append({"search": f"^{re.escape(schema)}\\.", "replace": f"{mapped}."})
        if len(self.remap) > 1 and {m for m in self.schema_map.values()} & set(self.schema_map):
            raise Skip("chained remap")
        for key in world.tables:
            self.keys[key] = (self.schema_map[key[0]], key[1])
        self.endpoint.reset(sorted(set(self.schema_map.values())))
        search_path(ctx, self.endpoint)

    def install(self, keys: Sequence[Key], *, fks: str = "all", drop: Optional[Set[Tuple[Key, Any]]] = None,
                autoinc: Optional[bool] = None, omit: Optional[Dict[Key, Sequence[str]]] = None,
                uniques: bool = True, generated: Optional[Dict[Key, Dict[str, str]]] = None,
                clauses: Optional[Dict[Key, List[str]]] = None) -> None:
        """Create the destination tables by hand. fks: all | none."""
        keyset = set(keys)
        table_map = {k: self.keys[k] for k in keyset}
        order = [t for t in self.world.ordered() if t.key in keyset]
        for table in order:
            fk_list: List[FK] = []
            if fks == "all":
                fk_list = [
                    fk for fk in table.fks
                    if fk.ref in keyset and not (drop and (table.key, fk.ident()) in drop)
                ]
            self.endpoint.run(
                create_sql(
                    table, self.endpoint, key=self.keys[table.key], fks=fk_list,
                    table_map=table_map, autoinc=autoinc,
                    omit=(omit or {}).get(table.key, ()), uniques=uniques,
                    generated=(generated or {}).get(table.key),
                    clauses=(clauses or {}).get(table.key, ()),
                )
            )

    def output(self, **extra) -> Dict[str, Any]:
        cfg = {"mode": "database", **self.endpoint.config()}
        if self.remap:
            cfg["remap"] = list(self.remap)
        if self.dialect == "sqlite" and self.ctx.rng.random() < 0.5:
            cfg["session_sqls"] = ["PRAGMA foreign_keys=ON"]
        cfg.update(extra)
        return cfg

    def read(self, key: Key, cols: Optional[Sequence[str]] = None) -> List[tuple]:
        dkey = self.keys[key]
        return self.endpoint.table(*dkey, cols)

    def read_dicts(self, key: Key) -> List[Dict[str, Any]]:
        cols = self.world.tables[key].names()
        return [dict(zip(cols, row)) for row in self.read(key, cols)]

    def tables(self) -> Set[Key]:
        return set(self.endpoint.tables())


def multiset(rows) -> collections.Counter:
    return collections.Counter(tuple(r) for r in rows)


def diff(expected: collections.Counter, actual: collections.Counter, limit: int = 8) -> Dict[str, Any]:
    missing = expected - actual
    extra = actual - expected
    return {
        "missing": [list(r) for r in list(missing.elements())[:limit]],
        "extra": [list(r) for r in list(extra.elements())[:limit]],
        "missing_count": sum(missing.values()),
        "extra_count": sum(extra.values()),
    }


def signature_of(world: World, cfg: Dict[str, Any], *more) -> list:
    """Structure of a case without concrete values."""
    idx = {key: i for i, key in enumerate(world.tables)}
    tabs = [
        [idx[t.key], len(t.pk), [[len(fk.cols), idx[fk.ref]] for fk in t.fks], min(len(t.rows), 4)]
        for t in world.ordered()
    ]
    return [world.dialect, tabs, sorted(
        [[idx[po.split(t)], sorted(s)] for t, s in cfg.get("targets", {}).items() if po.split(t) in idx]
    ), sorted(k for k in cfg), *more]


def ident_rows(rows: Sequence[Dict[str, Any]], cols: Sequence[str]) -> collections.Counter:
    return collections.Counter(tuple(r[c] for c in cols) for r in rows)


# -- hand made worlds --------------------------------------------------------------------


def new_world(ctx: Ctx, dialect: str, schema_names: Sequence[str] = (), role: str = "s") -> Tuple[World, Endpoint]:
    endpoint = ctx.bench.get(dialect, role)
    names = list(schema_names) or (["main"] if dialect == "sqlite" else ["alpha"])
    return World(dialect, [ctx.bench.schema(dialect, role, n) for n in names]), endpoint


def scratch_dir(ctx: Ctx, name: str) -> str:
    import os  # pylint: disable=import-outside-toplevel
    import shutil  # pylint: disable=import-outside-toplevel

    path = os.path.join(ctx.bench.base, name)
    shutil.rmtree(path, ignore_errors=True)
    os.makedirs(path)
    return path


def sample_to_dir(ctx: Ctx, source: Endpoint, plan, conf: Optional[Dict[str, Any]] = None, name: str = "out",
                  src_cfg=None) -> Dict[str, List[Dict[str, Any]]]:
    """Sample into JSON files; returns rows per table."""
    import json  # pylint: disable=import-outside-toplevel
    import os  # pylint: disable=import-outside-toplevel

    path = scratch_dir(ctx, name)
    full_conf = dict(conf or {})
    full_conf["output"] = {"mode": "directory", "directory": path}
    run_sample(ctx, source, None, full_conf, plan, src_cfg)
    result = {}
    for fname in os.listdir(path):
        with open(os.path.join(path, fname), encoding="utf-8") as fh:
            result[fname[: -len(".json")]] = [json.loads(line) for line in fh.read().split("\n")[:-1]]
    return result
