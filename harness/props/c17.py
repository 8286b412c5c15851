"""C17: remapping routes every table to exactly one place."""

import re

import predict
import scen
from props.c28 import _holds
from props.pipeline import Pipe, avoid_conflicts, small_shape
from runner import Skip, Violation

CONF = {
    "cases": {"quick": 520, "thorough": 10000},
    "cap": {"quick": 36, "thorough": 800},
    "rule": "lists of one to five patterns (schema and table renames, groups, repeated matches, case insensitive, chains, swaps) over random plans into "
    "destinations that also hold decoy tables with rows under the original, intermediate and similar names, with and without creation, truncation and merging; "
    "every table of the destination is compared with the prediction; patterns that send two tables to one name must be refused "
    "with the destination unchanged; non-trivial: at least one table was renamed and a decoy was there",
    "need": {"renamed": 146, "decoys": 196, "collisions": 9, "created": 40, "truncated": 17, "multi_pattern": 46},
}


def apply(patterns, key):
    text = scen.full(key)
    for pat in patterns:
        text = re.sub(pat["search"], pat["replace"], text)
    return text


def one_pattern(ctx, keys):
    """A pattern that may concern these (current) names."""
    rng = ctx.rng
    schema, name = rng.choice(keys)
    roll = rng.randrange(10)
    if roll == 0:
        return [{"search": "$", "replace": rng.choice(["_out", " x", "$", "9"])}]
    if roll == 1:
        return [{"search": rf"^{re.escape(schema)}\.", "replace": f"{rng.choice([schema + '2', 'merged', keys[0][0]])}."}]
    if roll == 2:
        return [{"search": r"^(\w+)\.(.+)$", "replace": rng.choice([r"\1.\1_\2", r"\g<1>2.\2", r"\1.p-\2"])}]
    if roll == 3:
        return [{"search": f"^{re.escape(scen.full((schema, name)))}$", "replace": f"{schema}.{rng.choice(['renamed', 'New Name', 'a.b', 'select'])}"}]
    if roll == 4:
        return [{"search": rng.choice(["e", "s", "o", "[st]", "t+"]), "replace": rng.choice(["E", "_", "", "oo"])}]
    if roll == 5:
        return [{"search": f"(?i){re.escape(name[:3])}", "replace": rng.choice(["ppl", "Q"])}]
    if roll == 6:
        other = rng.choice(keys)
        if other[1] == name:
            return [{"search": r"\.(\w)", "replace": r".\1\1"}]
        return [
            {"search": f"^{re.escape(schema)}\\.{re.escape(name)}$", "replace": f"{schema}.tmp~"},
            {"search": f"^{re.escape(other[0])}\\.{re.escape(other[1])}$", "replace": f"{other[0]}.{lit(name)}"},
            {"search": f"^{re.escape(schema)}\\.tmp~$", "replace": f"{schema}.{lit(other[1])}"},
        ]
    if roll == 7:
        return [{"search": "nosuchthing", "replace": "x."}]
    if roll == 8:
        return [{"search": r"(?<=\.)", "replace": rng.choice(["pre_", "z"])}]
    return [{"search": r"\.(?=[^.]*$)", "replace": rng.choice([".x_", ".copy of "])}]


def lit(text):
    return text.replace("\\", "\\\\")


def gen_patterns(ctx, pipe, base):
    """Patterns and where they send the plan's tables."""
    rng = ctx.rng
    for _ in range(30):
        patterns = [dict(p) for p in base]
        for _ in range(rng.choice([1, 1, 2, 2, 3, 4])):
            now = []
            for key in pipe.keys:
                parts = apply(patterns, key).split(".", 1)
                if len(parts) != 2:
                    break
                now.append(tuple(parts))
            if len(now) != len(pipe.keys):
                break
            patterns += one_pattern(ctx, now)
        places = {}
        for key in pipe.world.tables:
            parts = apply(patterns, key).split(".", 1)
            if len(parts) != 2 or not parts[0] or not parts[1]:
                break
            places[key] = tuple(parts)
        if len(places) != len(pipe.world.tables):
            continue
        if not all(valid(pipe, place) for place in places.values()):
            continue
        return patterns, places
    raise Skip("no usable patterns")


def valid(pipe, place):
    schema, name = place
    if len(schema) > 30 or len(name.encode()) > 60 or name != name.strip() or name.startswith("sqlite_"):
        return False
    if not re.fullmatch(r"[A-Za-z_][A-Za-z_0-9]*", schema) or schema.startswith("pg_"):
        return False
    if pipe.dest_dialect == "mysql":
        return schema.startswith(pipe.ctx.bench.get("mysql", "d").tag + "_") and "." not in name
    if pipe.dest_dialect == "sqlite":
        return schema.islower() and schema not in ("temp", "select")
    return True


def case(ctx):
    rng = ctx.rng
    shape = small_shape(rng, rows=(1, 8), tables=(2, 6), neg_ids=0.0, uniq=0.0, same_names=0.4, odd_names=0.35, schemas=(1, 2))
    pipe = Pipe(ctx, shape, passthrough=0.3, weights={"sqlite": 3, "postgres": 3, "mysql": 2})
    world = pipe.world
    merge = rng.random() < 0.2
    truncate = rng.random() < 0.3
    if merge:
        pipe.conf["output"] = {"merge": True}
    plain = scen.Dest(ctx, world, pipe.dest_dialect)
    base = plain.remap
    patterns, places = gen_patterns(ctx, pipe, base)
    pipe.places = places
    fold = (lambda k: k) if pipe.dest_dialect != "sqlite" else (lambda k: (k[0].lower(), k[1].lower()))
    spots = {}
    for key in pipe.keys:
        spots.setdefault(fold(places[key]), []).append(key)
    clash = [v for v in spots.values() if len(v) > 1]
    exact = [v for v in clash if len({places[k] for k in v}) == 1]
    if clash and not exact:
        raise Skip("names that differ by case only")
    if not clash and rng.random() < 0.1 and len(pipe.keys) > 1:
        one, two = rng.sample(pipe.keys, 2)
        patterns.append({"search": f"^{re.escape(scen.full(places[one]))}$", "replace": lit(scen.full(places[two]))})
        exact = [[one, two]]
    prepared = [k for k in pipe.keys if not exact and rng.random() < rng.choice([1, 1, 0.5, 0])]
    create = len(prepared) < len(pipe.keys)

    def route(dest):
        dest.keys = dict(places)
        dest.remap = patterns
        schemas = sorted({p[0] for p in places.values()} | set(dest.schema_map.values()))
        dest.endpoint.reset(schemas)

    pipe.fill_dest([k for k in prepared], shape=small_shape(rng, rows=(1, 6), neg_ids=0.0), prob=0.7)
    base_rows = {} if truncate else pipe.existing
    try:
        if not truncate:
            avoid_conflicts(pipe)
        delivered = pipe.model(existing=base_rows).delivered()
    except predict.Refused as exc:
        raise Skip("refused") from exc
    if merge and not truncate:
        for key in pipe.keys:
            table = world.tables[key]
            have = {tuple(r[c] for c in table.pk) for r in pipe.existing.get(key, [])}
            if key not in pipe.passthrough and have & {tuple(r[c] for c in table.pk) for r in delivered[key]}:
                raise Skip("offsets move onto existing rows")
    expected = pipe.expect_all(delivered, existing=base_rows)
    if create and not exact and not (_holds(pipe, expected) and _holds(pipe, pipe.existing)):
        raise Skip("foreign keys do not hold")
    dest = pipe.make_dest(fks="none", uniques=False, prepared=prepared, autoinc=False, route=route)
    ep = dest.endpoint
    pipe.put_existing()
    # decoys: names a careless router could choose instead
    taken = {fold(p) for k, p in places.items() if k in pipe.keys}
    decoys = set()
    for key in pipe.keys:
        steps = [key] + [tuple(apply(patterns[:n], key).split(".", 1)) for n in range(len(patterns))]
        steps += [(places[key][0], key[1]), (key[0], places[key][1])]
        for spot in steps:
            if len(spot) == 2 and fold(spot) not in taken and spot[0] in ep.schemas and valid(pipe, spot) and rng.random() < 0.6:
                taken.add(fold(spot))
                decoys.add(spot)
                cols = world.tables[key].names()
                ep.run(f"CREATE TABLE {ep.qt(*spot)} ({', '.join(ep.q(c) + ' VARCHAR(50)' for c in cols)})",
                       f"INSERT INTO {ep.qt(*spot)} ({', '.join(ep.q(c) for c in cols)}) VALUES ({', '.join(repr('d') for _ in cols)})")
    pipe.conf["output"] = dest.output(**({"merge": True} if merge else {}))
    ctx.info["places"] = {scen.full(k): scen.full(v) for k, v in places.items()}
    if exact:
        before = ep.full_dump()
        exc = pipe.run_expect_error(truncate=truncate, create=rng.random() < 0.7)
        if ep.full_dump() != before:
            raise Violation("the destination changed although two tables have the same destination", error=str(exc)[:300], tables=exact)
        ctx.count("collisions")
        ctx.nontrivial = True
        ctx.sign("collision", scen.signature_of(world, pipe.sub.cfg), [p["replace"] for p in patterns])
        return
    untouched = {spot: scen.multiset(ep.table(*spot)) for spot in ep.tables() if spot not in {places[k] for k in pipe.keys}}
    pipe.run(create=create or rng.random() < 0.2, truncate=truncate)
    have = set(ep.tables())
    want = set(untouched) | {places[k] for k in pipe.keys}
    if have != want:
        raise Violation("wrong tables in the destination", expected=sorted(want), got=sorted(have))
    for key in pipe.keys:
        pipe.compare(key, expected[key], "wrong contents in the destination of")
    for spot, rows in untouched.items():
        if scen.multiset(ep.table(*spot)) != rows:
            raise Violation(f"table {scen.full(spot)} is no destination of any table but changed")
    renamed = sum(places[k] != plain.keys[k] for k in pipe.keys)
    ctx.count("renamed", renamed)
    ctx.count("decoys", len(decoys))
    ctx.count("created", create)
    ctx.count("truncated", truncate)
    ctx.count("merged", merge)
    ctx.count("multi_pattern", len(patterns) > 1)
    ctx.nontrivial = renamed > 0 and bool(decoys)
    ctx.sign(scen.signature_of(world, pipe.sub.cfg), [[p["search"][:12], p["replace"][:6]] for p in patterns], create, truncate, merge)
    if ctx.index < 3:
        ctx.sample = {"patterns": patterns, "places": ctx.info["places"]}
