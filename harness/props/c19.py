"""C19: generated values stay in their documented domain."""

import json
import math
import os
import re
import string
import uuid

import scen
import subj
from runner import Known, Violation
from world import Col, Table, install

CONF = {
    "cases": {"quick": 150, "thorough": 4000},
    "cap": {"quick": 30, "thorough": 800},
    "rule": "tables of 1 to 1500 rows sampled with generating filters of random parameters (also with multiplicity, behind other filters, within "
    "multiplexing and into every kind of output), every delivered value is checked for domain membership, small domains for completeness, "
    "columns, rows and runs for independence; non-trivial: values were generated",
    "need": {"values_checked": 60000, "domains_complete": 18, "columns_compared": 36, "runs_compared": 15, "unique_columns": 20, "databases": 6,
             "fakers_seen": 19 * 4},
}
ALPHABETS = {
    "alnum": string.ascii_letters + string.digits,
    "hex": "0123456789abcdef",
    "hex_lower": "0123456789abcdef",
    "hex_upper": "0123456789ABCDEF",
    "digit": string.digits,
    "alpha": string.ascii_letters,
    "alpha_lower": string.ascii_lowercase,
    "alpha_upper": string.ascii_uppercase,
}


def _words(text, low, high):
    return low <= len(text.split()) <= high


def _known(module, *names):
    import importlib  # pylint: disable=import-outside-toplevel

    provider = importlib.import_module(module).Provider
    result = set()
    for name in names:
        result |= set(getattr(provider, name))
    return result


def kinds():
    person, address = "faker.providers.person.en_US", "faker.providers.address.en_US"
    base = "faker.providers.address.en"
    first = _known(person, "first_names")
    last = _known(person, "last_names")
    states = _known(address, "states")
    abbr = _known(address, "states_and_territories_abbr") if hasattr(
        __import__(address, fromlist=["Provider"]).Provider, "states_and_territories_abbr") else None
    countries = _known(base, "countries")
    street = re.compile(r"^\d+ .+")
    coordinate = re.compile(r"^-?\d+(\.\d+)?$")
    return {
        "fake_email": lambda v: re.fullmatch(r"[^@\s]+@[^@\s]+\.[a-z]+", v),
        "fake_first_name": lambda v: v in first,
        "fake_last_name": lambda v: v in last,
        "fake_name": lambda v: _words(v, 2, 5) and any(w in first for w in v.split()) and any(
            p in last for w in v.split() for p in [w, *w.split("-")]),
        "fake_phone_number": lambda v: re.fullmatch(r"[\d\-\.\(\)\+x ]+", v) and sum(c.isdigit() for c in v) >= 7,
        "fake_license_plate": lambda v: re.fullmatch(r"[A-Z0-9\- \u2022]{4,10}", v),
        "fake_vin": lambda v: re.fullmatch(r"[A-HJ-NPR-Z0-9]{17}", v),
        "fake_address": lambda v: "\n" in v and (street.match(v) or v.split("\n")[1]),
        "fake_building_number": lambda v: re.fullmatch(r"\d{1,6}", v),
        "fake_city": lambda v: v and v[0].isupper() and not any(c.isdigit() for c in v) and "\n" not in v,
        "fake_state": lambda v: v in states,
        "fake_state_abbr": lambda v: re.fullmatch(r"[A-Z]{2}", v) and (abbr is None or v in abbr),
        "fake_country": lambda v: v in countries,
        "fake_country_code": lambda v: re.fullmatch(r"[A-Z]{2}", v),
        "fake_postal_code": lambda v: re.fullmatch(r"\d{5}(-\d{4})?", v),
        "fake_street_address": lambda v: street.match(v) and "\n" not in v,
        "fake_street_name": lambda v: _words(v, 2, 4) and not any(c.isdigit() for c in v) and "\n" not in v,
        "fake_latitude": lambda v: coordinate.match(str(v)) and -90 <= float(v) <= 90,
        "fake_longitude": lambda v: coordinate.match(str(v)) and -180 <= float(v) <= 180,
    }


KINDS = kinds()
FAKERS = sorted(set(KINDS) - {"fake_license_plate"})
LICENSE = "the fake_license_plate filter fails whenever it is used (it asks faker for licence_plate)"
# so many distinct values that repetition within a run tells something about `unique`
SPREAD = {"fake_email": 4000, "fake_name": 4000, "fake_phone_number": 10**6, "fake_license_plate": 10**5, "fake_vin": 10**9,
          "fake_address": 10**6, "fake_street_address": 10**6, "fake_latitude": 10**6, "fake_longitude": 10**6, "fake_first_name": 600,
          "fake_last_name": 900, "fake_state": 48, "fake_state_abbr": 45, "fake_country": 220, "fake_country_code": 180,
          "fake_postal_code": 5000, "fake_building_number": 3000, "fake_city": 3000, "fake_street_name": 10**4}


def enough(domain, draws):
    """Missing any of `domain` equally likely values has probability below 1e-12."""
    return draws * -math.log1p(-1 / domain) > math.log(domain) + 28 if domain > 1 else True


def make_filter(rng, op, cols, size, copies=1):
    conf = {"op": op, "columns": cols}
    if op == "random_int":
        low = rng.choice([0, 1, -3, -(10**6), 10**12, 2**31])
        conf.update(low=low, high=low + rng.choice([0, 1, 1, 2, 5, 9, 99, 10**6, 2**40]))
    elif op == "random_float":
        low = rng.choice([0.0, -1.0, 5.5, -1e6, 0])
        conf.update(low=low, high=low + rng.choice([0.0, 0.001, 1, 2.5, 1e6]))
        if rng.random() < 0.3:
            # tiny and uneven ranges
            low = rng.choice([2e-7, 1.00000013, -3.3333e-9, 1e-12, 0.1234567891])
            conf.update(low=low, high=low + abs(low) * rng.choice([1e-7, 0.5, 3.0]))
    elif op == "random_string":
        conf["length"] = rng.choice([0, 1, 1, 2, 8, 16, 40])
        if rng.random() < 0.8:
            conf["alphabet"] = rng.choice(sorted(ALPHABETS) + ["custom", "custom"])
            if conf["alphabet"] == "custom":
                conf["custom_alphabet"] = rng.choice(["x", "ab", "äöü", "aab", "01 ", "'\"\\", "\U0001F600é"])
    elif op.startswith("fake_") and rng.random() < 0.6:
        # every copy and every column takes part in the uniqueness
        if size * len(cols) * copies * 3 < SPREAD[op]:
            conf["unique"] = True
        elif rng.random() < 0.5:
            conf["unique"] = False
    return conf


def check_column(ctx, conf, values):
    op = conf["op"]
    ctx.count("values_checked", len(values))
    if op == "random_int":
        low, high = conf["low"], conf["high"]
        bad = [v for v in values if isinstance(v, bool) or not isinstance(v, int) or not low <= v <= high]
        domain = set(range(low, high + 1)) if high - low < 1000 else None
    elif op == "random_float":
        low, high = conf["low"], conf["high"]
        bad = [v for v in values if not isinstance(v, (float, int)) or not low <= v <= high]
        domain = None
        if high > low and enough(8, len(values)):
            seen = {min(7, int((v - low) / (high - low) * 8)) for v in values}
            if seen != set(range(8)):
                raise Violation("random_float leaves out a part of its range", conf=conf, eighths_seen=sorted(seen))
            ctx.count("domains_complete")
    elif op == "random_string":
        chars = ALPHABETS.get(conf.get("alphabet", "alnum")) or conf["custom_alphabet"]
        bad = [v for v in values if not isinstance(v, str) or len(v) != conf["length"] or set(v) - set(chars)]
        domain = set(chars) if conf["length"] == 1 else None
        if not bad and conf["length"] > 1:
            for pos in {0, conf["length"] - 1}:
                if enough(len(chars), len(values)) and {v[pos] for v in values} != set(chars):
                    raise Violation("random_string leaves out characters of its alphabet", conf=conf, position=pos,
                                    missing="".join(sorted(set(chars) - {v[pos] for v in values})))
            if enough(len(chars), len(values)):
                ctx.count("domains_complete")
    elif op == "uuid":
        bad = []
        for val in values:
            try:
                if str(uuid.UUID(val)) != val or uuid.UUID(val).version not in (1, 4, 6, 7, 8):
                    bad.append(val)
            except (ValueError, TypeError, AttributeError):
                bad.append(val)
        domain = None
        if len(set(values)) != len(values):
            raise Violation("uuids repeat", values=len(values), distinct=len(set(values)))
    else:
        check = KINDS[op]
        text = op not in ("fake_latitude", "fake_longitude")
        bad = [v for v in values if (text and not isinstance(v, str)) or v is None or not check(v)]
        domain = None
        ctx.count("fakers_seen")
        if conf.get("unique"):
            ctx.count("unique_columns")
            if len(set(values)) != len(values):
                raise Violation(f"unique {op} values repeat", conf=conf, values=len(values), distinct=len(set(values)))
    if bad:
        raise Violation(f"{op} produced values outside its domain", conf=conf, values=[repr(v) for v in bad[:5]], how_many=len(bad))
    if domain is not None and enough(len(domain) if op != "random_string" else len(chars) * 2, len(values)):
        ctx.count("domains_complete")
        if set(values) != domain:
            raise Violation(f"{op}: some values of the domain never occur", conf=conf, draws=len(values),
                            missing=sorted(map(str, domain - set(values)))[:10])


def spread(conf):
    """A lower bound for the number of equally likely outcomes of one draw."""
    op = conf["op"]
    if op == "random_int":
        return conf["high"] - conf["low"] + 1
    if op == "random_float":
        return 10**6 if conf["high"] > conf["low"] else 1
    if op == "random_string":
        chars = ALPHABETS.get(conf.get("alphabet", "alnum")) or conf["custom_alphabet"]
        return 1 if len(set(chars)) == 1 else 1.8 ** min(conf["length"], 30)
    if op == "uuid":
        return 10**9
    return 10


def surely(conf, draws):
    """That many draws agreeing by chance is practically impossible."""
    return draws * math.log(spread(conf)) > 32


def run(ctx, source, dest, doc, conf, table, names, db):
    if db:
        dest.endpoint.reset(sorted(set(dest.schema_map.values())))
        dest.install([table.key], fks="none", autoinc=False)
        conf["output"] = dest.output()
    if not db:
        return scen.sample_to_dir(ctx, source, subj.load_plan(doc), conf)[table.full]
    scen.run_sample(ctx, source, dest.endpoint, conf, subj.load_plan(doc))
    return [dict(zip(names, row)) for row in dest.read(table.key, names)]


def license_plate(ctx):
    """The listed finding, on its own."""
    world, source = scen.new_world(ctx, "sqlite")
    table = Table((world.schemas[0], "cars"))
    table.cols = [Col("id", "int", False), Col("plate", "text")]
    table.pk = ("id",)
    table.rows = [{"id": i, "plate": "original"} for i in range(40)]
    world.tables[table.key] = table
    install(world, source)
    stmt = {"type": "select", "from": {"schema": table.key[0], "table": table.key[1]}}
    plan = subj.load_plan({"queries": {table.full: {"statement": stmt}}, "passthrough": []})
    conf = {"op": "fake_license_plate", "columns": ["plate"]}
    try:
        rows = scen.sample_to_dir(ctx, source, plan, {"filters": {table.full: [conf]}})[table.full]
    except Violation as exc:
        if "licence_plate" in exc.what:
            raise Known(LICENSE) from exc
        raise
    check_column(ctx, conf, [r["plate"] for r in rows])


def case(ctx):
    if ctx.index == 0:
        return license_plate(ctx)
    rng = ctx.rng
    db = ctx.index % 5 == 4
    dialect = scen.pick_dialect(ctx) if db else "sqlite"
    world, source = scen.new_world(ctx, dialect)
    table = Table((world.schemas[0], rng.choice(["people", "Some Table"])))
    size = rng.choice([1, 30, 200, 200, 600, 600, 1100, 1500])
    # every fifth case looks at fake data
    count = rng.randint(2, 6)
    table.cols = [Col("id", "int", False), Col("keep", "text")]
    ops = []
    for i in range(count):
        pool = ["random_int", "random_float", "random_string", "uuid"] + [FAKERS[(ctx.index * 5 + i) % len(FAKERS)]] * 4
        op = rng.choice(pool)
        kind = {"random_int": "bigint", "random_float": "float", "fake_latitude": "float", "fake_longitude": "float"}.get(op, "secret")
        ops.append((op, f"c{i}", kind))
        table.cols.append(Col(f"c{i}", kind))
    table.pk = ("id",)
    for i in range(size):
        row = {"id": i + 1, "keep": f"k{i}"}
        for _, name, kind in ops:
            row[name] = None if rng.random() < 0.1 else {"bigint": 4 * 10**15, "float": -7e12, "secret": "original-%s-%s" % (i, name)}[kind]
        table.rows.append(row)
    world.tables[table.key] = table
    install(world, source)
    multiplier = rng.choice([1, 1, 1, 2, 3])
    filters = []
    by_col = {}
    for op, name, kind in ops:
        if name in by_col:
            continue
        cols = [name] + [n for o, n, k in ops if k == kind and n not in by_col and n != name and rng.random() < 0.5]
        conf = make_filter(rng, op, cols, size, multiplier)
        for col in cols:
            by_col[col] = conf
        if rng.random() < 0.15:
            filters.append({"op": rng.choice(["null", "zero"]), "columns": cols})
        if rng.random() < 0.12:
            filters.append({"op": "multiplex", "column": "keep", "conditions": [
                {"op": "in", "value": ["nosuch"], "apply": {"op": "null", "columns": cols}},
                {"op": "is not", "value": None, "apply": conf}]})
        else:
            filters.append(conf)
    conf = {"filters": {table.full: filters}}
    if multiplier > 1:
        conf["multiplicity"] = {"multiplier": multiplier}
    dest = None
    if db:
        dest = scen.Dest(ctx, world, dialect)
        conf["output"] = dest.output()
    stmt = {"type": "select", "from": {"schema": table.key[0], "table": table.key[1]}}
    doc = {"queries": {table.full: {"statement": stmt}}, "passthrough": []}
    ctx.info["sampler"] = conf
    names = table.names()
    rows = run(ctx, source, dest, doc, conf, table, names, db)
    if len(rows) != size * multiplier:
        raise Violation("rows lost or duplicated", got=len(rows), expected=size * multiplier)
    rows.sort(key=lambda r: r["id"])
    cols = {name: [r[name] for r in rows] for name in by_col}
    for name, fconf in by_col.items():
        check_column(ctx, fconf, cols[name])
        if surely(fconf, len(rows) - 1) and len(set(cols[name])) == 1:
            raise Violation("one value was used for all rows", conf=fconf)
    done = sorted(by_col)
    for i, left in enumerate(done):
        for right in done[i + 1:]:
            if by_col[left] is by_col[right] and surely(by_col[left], len(rows)):
                ctx.count("columns_compared")
                if cols[left] == cols[right]:
                    raise Violation("two columns always get the same value", conf=by_col[left])
    if multiplier > 1:
        for name in done:
            if surely(by_col[name], size) and cols[name][0::multiplier] == cols[name][1::multiplier]:
                raise Violation("copies of a row share their generated values", conf=by_col[name])
    if ctx.index % 3 == 0:
        again = run(ctx, source, dest, doc, conf, table, names, db)
        again.sort(key=lambda r: r["id"])
        for name in done:
            if surely(by_col[name], len(rows)):
                ctx.count("runs_compared")
                if [r[name] for r in again] == cols[name]:
                    raise Violation("two runs generated the same values", conf=by_col[name])
    ctx.count("databases", db)
    ctx.nontrivial = True
    ctx.sign(dialect, db, size, multiplier, sorted(json.dumps(c, sort_keys=True) for c in by_col.values()))
    if ctx.index < 3:
        ctx.sample = {"filters": filters, "first": {n: str(cols[n][0]) for n in done}}
