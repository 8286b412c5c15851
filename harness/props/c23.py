"""C23: misconfiguration is rejected before the destination is touched."""

import copy
import os
import re

import predict
import scen
import subj
import cli
import yaml
from monitor import Monitor
from props.pipeline import Pipe, small_shape
from runner import Skip, Violation

CONF = {
    "cases": {"quick": 560, "thorough": 14000},
    "cap": {"quick": 32, "thorough": 800},
    "rule": "one random defect (filters, plugins, remapping, compaction, multiplicity, missing tables or columns, unfitting plans, unknown or "
    "ill-typed settings at any depth) is put into an otherwise valid random configuration for a filled destination, with and without "
    "truncation, creation and merging, through the API and the command line; the error has to name the culprit, the destination's dump must "
    "be the same before and after and it must not have received a statement that writes; valid configurations are run for comparison; "
    "non-trivial: a defect was refused with a non-empty destination",
    "need": {"refused": 97, "kind.filter": 22, "kind.settings": 15, "kind.remap": 8, "kind.compact": 8, "kind.multiply": 6, "kind.missing": 15,
             "kind.plan": 9, "truncating": 72, "creating": 27, "cli": 24, "controls": 12, "kind.planner": 9, "raw_sql": 5},
}
WRITES = re.compile(r"^\s*(/\*.*?\*/)?\s*(insert|update|delete|replace|merge|create|drop|alter|truncate|copy|grant|rename)\b", re.I | re.S)
KINDS = ["filter", "settings", "remap", "compact", "multiply", "missing", "plan", "filter", "settings", "planner", "filter", "missing"]


class Setup:
    """A valid configuration and what will be done with it."""

    def __init__(self, ctx, kind):
        rng = ctx.rng
        self.ctx, self.kind = ctx, kind
        self.pipe = pipe = Pipe(ctx, small_shape(rng, rows=(0, 6), tables=(2, 5), textpk=0.3 if kind == "multiply" else 0.05, big=0.0),
                                cross=0.2, passthrough=0.3)
        self.merge = rng.random() < 0.15
        self.create = rng.random() < 0.4 and pipe.dest_dialect == pipe.dialect
        self.truncate = rng.random() < 0.75
        pipe.gen_filters(tables=0.4)
        if kind not in ("multiply", "compact"):
            if rng.random() < 0.3:
                pipe.gen_compact()
            if rng.random() < 0.3:
                pipe.gen_multiplicity()
            try:
                model = pipe.model()
                model.multiplied()
                model.compact_cols()
            except predict.Refused:
                pipe.conf.pop("compact", None)
                pipe.conf.pop("multiplicity", None)
        self.absent = [k for k in pipe.keys if rng.random() < 0.4] if self.create else []
        prepared = [k for k in pipe.keys if k not in self.absent]
        self.prepared = prepared
        self.plan = pipe.sub.doc
        self.planner = pipe.sub.cfg
        self.source = pipe.source.config()
        self.raw = False  # the plan is not the planner's

    def install(self, lack=None):
        pipe = self.pipe
        pipe.gone = dict(lack or {})
        pipe.make_dest(fks="none", uniques=False, autoinc=False, prepared=self.prepared)
        pipe.fill_dest(self.prepared, shape=small_shape(self.ctx.rng, rows=(1, 5)))
        pipe.put_existing()
        pipe.conf["output"] = pipe.dest.output(**({"merge": True} if self.merge else {}))


def columns_left(pipe, key):
    gone = pipe.omitted(key)
    return [n for n in pipe.world.tables[key].names() if n not in gone]


def defect_filter(ctx, s):
    rng, pipe = ctx.rng, s.pipe
    key = rng.choice(pipe.keys)
    # (filters of tables that are not sampled only cause a warning)
    if rng.random() < 0.15:
        s.raw = True
        s.plan = copy.deepcopy(s.plan)
        s.plan["queries"][scen.full(key)] = {"sql": f"SELECT * FROM {pipe.source.qt(*key)}"}
        ctx.count("raw_sql")
    chain = pipe.conf.setdefault("filters", {}).setdefault(scen.full(key), [])
    names = pipe.world.tables[key].names()
    left = columns_left(pipe, key)
    col = rng.choice(left)
    at = rng.randint(0, len(chain))
    bad = rng.choice(["nosuch", col + "x", col.upper() + "_"])
    if bad in names:
        raise Skip("column exists")
    plain = rng.choice([{"op": "null"}, {"op": "zero"}, {"op": "uuid"}, {"op": "omit"}, {"op": "random_int", "low": 0, "high": 1}, {"op": "fake_city"},
                        {"op": "plugin", "module": "plug", "class": "Swap"}, {"op": "random_float", "low": 0, "high": 1}])
    how = rng.choice(["unknown", "omitted", "plex", "applied", "module", "class", "kwargs", "count", "range", "alphabet", "op", "lacking", "type",
                      "twice", "none", "condition", "plexomit", "literal"])
    name = [bad]
    if how == "unknown":
        item = {**plain, "columns": rng.sample([bad, col], 2)}
    elif how == "omitted":
        chain.append({"op": "omit", "columns": [col]})
        at = len(chain)
        item, name = {**plain, "columns": [col]}, [col]
    elif how == "plex":
        item = {"op": "multiplex", "column": bad, "conditions": [{"op": "is", "value": None, "apply": {"op": "null", "columns": [col]}}]}
        name = [bad, "ultiplex"]
    elif how == "applied":
        plain = {"op": "null"} if plain["op"] == "omit" else plain
        item = {"op": "multiplex", "column": col, "conditions": [
            {"op": "is not", "value": None, "apply": {"op": "zero", "columns": [col]}}, {"op": "is", "value": None, "apply": {**plain, "columns": [bad]}}]}
        at = len(chain)
    elif how == "module":
        item, name = {"op": "plugin", "module": "nosuchmodule", "class": "Swap", "columns": [col]}, ["nosuchmodule"]
    elif how == "class":
        item, name = {"op": "plugin", "module": "plug", "class": "NoClass", "columns": [col]}, ["NoClass"]
    elif how == "kwargs":
        item, name = {"op": "plugin", "module": "plug", "class": "Suffix", "columns": [col], "kwargs": {"nokw": 1}}, ["Suffix"]
    elif how == "count":
        item, name = {"op": "constant", "columns": [col], "values": rng.choice([[], [1, 2]])}, ["onstant"]
    elif how == "range":
        item, name = {"op": "random_int", "columns": [col], "low": 3, "high": rng.choice([2, -3])}, ["andom"]
    elif how == "alphabet":
        item, name = {"op": "random_string", "columns": [col], "length": 3, "alphabet": "custom"}, ["lphabet"]
    elif how == "op":
        item, name = {"op": "nullify", "columns": [col]}, ["nullify"]
    elif how == "lacking":
        item, name = rng.choice([
            ({"op": "random_int", "columns": [col], "low": 1}, ["high"]), ({"op": "null"}, ["columns"]), ({"columns": [col]}, ["op"]),
            ({"op": "plugin", "columns": [col], "module": "plug"}, ["class"]), ({"op": "multiplex", "column": col}, ["conditions"])])
    elif how == "type":
        item, name = rng.choice([
            ({"op": "null", "columns": col}, ["columns"]), ({"op": "random_int", "columns": [col], "low": "a", "high": 3}, ["low"]),
            ({"op": "random_string", "columns": [col], "length": rng.choice(["long", -1])}, ["length"]), ({"op": "fake_name", "columns": [col], "unique": "perhaps"}, ["unique"]),
            ({"op": "random_string", "columns": [col], "length": 1, "alphabet": "greek"}, ["alphabet"])])
    elif how == "twice":
        plain.pop("class", None)
        item, name = {"op": rng.choice(["null", "zero", "omit", "uuid"]), "columns": [col, col]}, [col]
    elif how == "none":
        item, name = {"op": rng.choice(["null", "zero", "omit", "uuid"]), "columns": []}, ["column"]
    elif how == "condition":
        item = {"op": "multiplex", "column": col, "conditions": [{"op": rng.choice(["~", "==", "like"]), "value": "a", "apply": {"op": "null", "columns": [col]}}]}
        name = ["conditions"]
    elif how == "plexomit":
        item = {"op": "multiplex", "column": col, "conditions": [{"op": "is", "value": None, "apply": {"op": "omit", "columns": [col]}}]}
        name = ["ultiplex"]
    else:
        item, name = {"op": "constant", "columns": [col], "values": [{"a": 1}]}, ["values"]
    if how in ("unknown", "applied", "plex"):
        pass
    elif how not in ("omitted",):
        at = rng.randint(0, len(chain))
        # (before the columns used here are dropped)
        drops = [i for i, c in enumerate(chain) if c["op"] == "omit"]
        if drops:
            at = min(at, drops[0])
    chain.insert(at, item)
    return f"filter {how}", name


def defect_settings(ctx, s):
    rng, conf = ctx.rng, s.pipe.conf
    s.install()
    where = rng.choice(["root", "compact", "multiplicity", "remap", "source", "value", "value", "value", "value"])
    if where == "root":
        conf["colour"] = 1
        return "unknown field", ["colour"]
    if where == "source":
        # (further fields of connection settings and filters are ignored)
        what = rng.choice(["dialect", "isolation"])
        s.source[{"dialect": "dialect", "isolation": "isolation_level"}[what]] = "oracle"
        return f"unknown source {what}", [what]
    if where == "remap":
        conf["output"].setdefault("remap", []).append(rng.choice([{"search": "x", "replace": "y", "colour": 2}, {"search": "x", "colour": 3}]))
        return "unknown remap field", ["colour"]
    if where != "value":
        conf.setdefault(where, {})["colour"] = rng.choice([None, 1, "a"])
        return f"unknown {where} field", ["colour"]
    name, path, val = rng.choice([
        ("mode", ("output", "mode"), "files"), ("conflict_strategy", ("output", "conflict_strategy"), "ignore"), ("merge", ("output", "merge"), "perhaps"),
        ("dialect", ("output", "dialect"), "oracle"), ("infer_foreign_keys", ("infer_foreign_keys",), "some"), ("start_key", ("compact", "start_key"), "one"),
        ("multiplier", ("multiplicity", "multiplier"), "two"), ("multiplier", ("multiplicity", "multiplier"), 1.5),
        ("primary_keys", ("compact", "primary_keys"), "perhaps"), ("columns", ("compact", "columns"), ["a"]), ("remap", ("output", "remap"), {"a": "b"}),
        ("filters", ("filters",), ["a"]), ("extra_columns", ("multiplicity", "extra_columns"), {"a": "b"}), ("isolation_level", ("output", "isolation_level"), "NONE AT ALL"),
        ("ignore_tables", ("multiplicity", "ignore_tables"), "a.b"), ("session_sqls", ("output", "session_sqls"), "SELECT 1"),
    ])
    node = conf
    for part in path[:-1]:
        node = node.setdefault(part, {})
    node[path[-1]] = val
    return f"bad value of {'.'.join(path)}", [name]


def defect_remap(ctx, s):
    rng, pipe = ctx.rng, s.pipe
    s.install()
    remap = pipe.conf["output"].setdefault("remap", [])
    how = rng.choice(["collide", "collide", "pair", "nodot", "regex"])
    names = [".".join(pipe.dest.keys[k]) for k in pipe.keys]
    if len(names) < 2 and how in ("collide", "pair"):
        raise Skip("one table")
    if how == "collide":
        target = rng.choice(names)
        remap.append({"search": "^.*$", "replace": target.replace("\\", "\\\\")})
        return "remap collision", [target]
    if how == "pair":
        first, second = rng.sample(names, 2)
        remap.append({"search": f"^{re.escape(first)}$", "replace": second.replace("\\", "\\\\")})
        return "remap collision of two tables", [second]
    if how == "nodot":
        remap.append({"search": "\\.", "replace": "_"})
        return "remap without schema", ["_"]
    remap.append({"search": "(", "replace": "x"})
    return "remap pattern", []


def defect_compact(ctx, s):
    pipe = s.pipe
    for _ in range(12):
        pipe.conf.pop("compact", None)
        pipe.gen_compact()
        with_fk = [k for k in pipe.keys if pipe.world.tables[k].fks and k not in pipe.passthrough]
        if with_fk and ctx.rng.random() < 0.6:
            key = ctx.rng.choice(with_fk)
            fk = ctx.rng.choice(pipe.world.tables[key].fks)
            if fk.ref in pipe.keys:
                pipe.conf.setdefault("compact", {}).setdefault("columns", {}).setdefault(scen.full(key), []).append(ctx.rng.choice(fk.cols))
        try:
            pipe.model().compact_cols()
        except predict.Refused:
            return "illegal compaction", ["ompact"]
    raise Skip("no illegal compaction")


def defect_multiply(ctx, s):
    pipe, rng = s.pipe, ctx.rng
    for _ in range(12):
        pipe.gen_multiplicity()
        conf = pipe.conf["multiplicity"]
        extra = [k for k in pipe.keys if k not in pipe.passthrough and scen.full(k) not in conf.get("ignore_tables", [])]
        if extra and rng.random() < 0.5:
            key = rng.choice(extra)
            if rng.random() < 0.5:
                conf.setdefault("extra_columns", {})[scen.full(key)] = ["nosuch"]
                return "unknown multiplied column", ["nosuch", "integral", "ultipl"]
            conf.setdefault("extra_columns", {})[scen.full(key)] = ["val"]
        try:
            pipe.model().multiplied()
        except predict.Refused as exc:
            return f"illegal multiplicity: {'text' if 'integer' in str(exc) else 'unmultiplied'}", []
    raise Skip("no illegal multiplicity")


def defect_missing(ctx, s):
    rng, pipe = ctx.rng, s.pipe
    if rng.random() < 0.5 or not s.prepared:
        s.create = False
        gone = set(rng.sample(pipe.keys, k=rng.choice([1, 1, len(pipe.keys)])))
        s.prepared = [k for k in pipe.keys if k not in gone]
        s.install()
        return "missing table", [pipe.dest.keys[min(gone)][1]]
    key = rng.choice(s.prepared)
    cand = [c for c in columns_left(pipe, key) if c not in pipe.protected(key)]
    if not cand:
        raise Skip("no column to leave out")
    most = min(len(cand), len(pipe.world.tables[key].names()) - 1)
    lost = set(rng.sample(cand, k=rng.choice([1, 1, most]))) if most > 0 else set()
    if not lost:
        raise Skip("no column to leave out")
    s.install({key: lost})
    return "missing column", [min(lost), pipe.dest.keys[key][1]]


def defect_plan(ctx, s):
    rng, pipe = ctx.rng, s.pipe
    s.plan = doc = copy.deepcopy(pipe.sub.doc)
    s.install()
    name = rng.choice(sorted(doc["queries"]))
    if pipe.dest_dialect == pipe.dialect and rng.random() < 0.35:
        return defect_cycle(s, rng.choice([1, 2, 2, 3]))
    how = rng.choice(["table", "table", "column", "field", "name", "sampled", "limit"])
    if how == "table":
        key = pipe.world.tables[tuple(name.split(".", 1))].key if tuple(name.split(".", 1)) in pipe.world.tables else pipe.keys[0]
        dschema = pipe.dest.keys[key][0]
        ep = pipe.dest.endpoint
        ep.run(f"CREATE TABLE {ep.qt(dschema, 'gone')} (rid int primary key)", f"INSERT INTO {ep.qt(dschema, 'gone')} VALUES (1)")
        pipe.conf["output"].setdefault("remap", []).append({"search": "^nowhere\\.gone$", "replace": f"{dschema}.gone"})
        new = rng.choice(["nowhere.gone", f"{key[0]}.gone"])
        doc["queries"][new] = {"statement": {"type": "select", "from": {"schema": new.split(".")[0], "table": "gone"}}}
        return "plan for an unknown table", ["gone"]
    if how == "column":
        schema, table = name.split(".", 1)
        doc["queries"][name] = {"statement": {"type": "select", "from": {"schema": schema, "table": table}, "where": {
            "type": "in", "columns": ["nosuch"], "values": [[1]]}}}
        return "plan for an unknown column", ["nosuch"]
    if how == "field":
        doc["queries"][name] = rng.choice([{"statment": {}}, {"statement": {"type": "choose"}}, {"statement": {"type": "select", "form": {}}}, 7])
        return "malformed plan", []
    if how == "limit":
        statement = {"type": "select", "from": dict(zip(("schema", "table"), name.split(".", 1))), "limit": -rng.randint(1, 9)}
        doc["queries"][name] = {"statement": statement if rng.random() < 0.5 else {"type": "union", "statements": [statement]}}
        return "plan with a negative limit", ["limit"]
    if how == "name":
        doc["queries"]["nodots"] = {"statement": {"type": "select", "from": {"schema": "a", "table": "b"}}}
        return "plan with a bad table name", ["nodots"]
    schema, table = name.split(".", 1)
    doc["queries"][name] = {"statement": {"type": "select", "from": {"schema": schema, "table": table}, "where": {
        "type": "in", "columns": ["rid"], "values": {"type": "select", "columns": ["rid"], "from": {"schema": schema, "table": "gone", "sampled": True}}}}}
    return "plan refers to an unplanned sample", ["gone"]


def defect_cycle(s, length):
    """Tables whose foreign keys form a cycle cannot be created and delivered in any order."""
    pipe, rng = s.pipe, s.ctx.rng
    s.create = True
    key = rng.choice(pipe.keys)
    ep, schema = pipe.source, key[0]
    names = [f"cyc{n}" for n in range(length)]
    later = []
    for num, name in enumerate(names):
        ref = names[(num + 1) % length]
        inline = ""
        if ep.dialect == "sqlite":
            inline = f", FOREIGN KEY (ref) REFERENCES {ref} (id)"
        else:
            later.append(f"ALTER TABLE {ep.qt(schema, name)} ADD FOREIGN KEY (ref) REFERENCES {ep.qt(schema, ref)} (id)")
        ep.run(f"CREATE TABLE {ep.qt(schema, name)} (id int primary key, ref int{inline})")
        s.plan["queries"][f"{schema}.{name}"] = {"statement": {"type": "select", "from": {"schema": schema, "table": name}}}
    if later:
        ep.run(*later)
    pipe.conf["output"].setdefault("remap", []).append({"search": "^.*[.]cyc([0-9])$", "replace": f"{pipe.dest.keys[key][0]}.cyc\\1"})
    return "foreign key cycle among the tables to be created", ["ycle"]


def defect_planner(ctx, s):
    rng = ctx.rng
    s.install()
    s.planner = cfg = copy.deepcopy(s.pipe.sub.cfg)
    target = rng.choice(sorted(cfg["targets"]))
    how = rng.choice(["field", "target field", "value", "operator", "extra", "extra", "columns", "unknown target", "lacking", "amount"])
    if how == "field":
        cfg["colour"] = 1
        return "unknown planner field", ["colour"]
    if how == "target field":
        cfg["targets"][target]["colour"] = 1
        return "unknown target field", ["colour"]
    if how == "value":
        name, val = rng.choice([("infer_foreign_keys", "some"), ("select", "a.b"), ("targets", ["a.b"]), ("passthrough", {"a": 1})])
        cfg[name] = val
        return "bad planner value", [name]
    if how == "operator":
        cfg["table_constraints"] = {target: [{"column": "rid", "operator": "~", "value": 3}]}
        return "unknown operator", ["operator"]
    if how == "extra":
        src, dst = rng.choice([(["rid"], []), (["rid"], ["a", "b"]), ([], []), (["rid", "rid"], ["rid", "val"]), (["rid", "val"], ["rid", "rid"])])
        cfg.setdefault("extra_fks", []).append({"src_table": target, "src_columns": src, "dst_table": target, "dst_columns": dst})
        return "extra foreign key with unfitting columns", ["columns"]
    if how == "columns":
        cfg["targets"][target] = {"in": {"nosuch": [1]}}
        return "unknown target column", ["nosuch"]
    if how == "amount":
        cfg["targets"][target] = {"amount": -rng.randint(1, 9)}
        return "negative amount", ["amount"]
    if how == "unknown target":
        cfg["targets"]["nowhere.gone"] = {"all": True}
        return "unknown target table", ["gone"]
    name = rng.choice(["select", "targets"])
    del cfg[name]
    return "planner section lacks something", [name]


DEFECTS = {"filter": defect_filter, "settings": defect_settings, "remap": defect_remap, "compact": defect_compact, "multiply": defect_multiply,
           "missing": defect_missing, "plan": defect_plan, "planner": defect_planner}


def case(ctx):
    rng = ctx.rng
    kind = KINDS[ctx.index % len(KINDS)]
    s = Setup(ctx, kind)
    pipe = s.pipe
    if ctx.index % 9 == 4:
        return control(ctx, s)
    what, names = DEFECTS[kind](ctx, s)
    if kind in ("filter", "compact", "multiply"):
        s.install()
    ctx.info.update(defect=what, sampler=pipe.conf, options=[s.truncate, s.create, s.merge])
    pipe.source.close()
    before = pipe.dest.endpoint.full_dump()
    pipe.dest.endpoint.close()
    sent = []

    def watch(event, side, _conn, statement, _params):
        if event == "execute" and side == "dest":
            sent.append(statement)

    ctx.judging()
    via_cli = kind == "planner" or ctx.index % 4 == 1
    output = dict(pipe.conf["output"])
    output["dialect"] = pipe.dest_dialect
    with Monitor(pipe.source.config(), output, watch):
        message = run_cli(ctx, s) if via_cli else run_api(s)
    if message is None:
        raise Violation(f"accepted a configuration with a defect: {what}", names=names)
    after = pipe.dest.endpoint.full_dump()
    if after != before:
        raise Violation(f"the destination changed although the configuration was refused: {what}", error=message[:400])
    wrote = [q for q in sent if WRITES.match(q)]
    if wrote:
        raise Violation(f"writing statements although the configuration was refused: {what}", statements=wrote[:3], error=message[:300])
    if names and not any(n in message for n in names):
        raise Violation(f"the error does not name the problem: {what}", names=names, error=message[:400])
    if not message.strip():
        raise Violation(f"no error message: {what}")
    ctx.count("refused")
    ctx.count(f"kind.{kind}")
    ctx.count(f"defect.{what}")
    ctx.count("truncating", s.truncate)
    ctx.count("creating", s.create)
    ctx.count("cli", via_cli)
    ctx.count("dest_statements", len(sent))
    ctx.nontrivial = any(pipe.existing.values())
    ctx.sign(what, scen.signature_of(pipe.world, pipe.sub.cfg, s.truncate, s.create, s.merge, via_cli))
    if ctx.index < 4:
        ctx.sample = {"defect": what, "error": message[:200]}


def run_api(s):
    """The error message, None if there was none."""
    try:
        subj.sample(s.source, s.pipe.conf, subj.load_plan(s.plan), truncate=s.truncate, create=s.create)
    except Exception as exc:  # pylint: disable=broad-exception-caught
        return f"{type(exc).__name__}: {exc}"
    finally:
        subj.close_all()
    return None


def run_cli(ctx, s):
    path = scen.scratch_dir(ctx, "cli")
    command = "subset" if s.kind == "planner" or (s.kind != "plan" and not s.raw and ctx.rng.random() < 0.4) else "sample"
    with open(os.path.join(path, "c.yaml"), "w", encoding="utf-8") as fh:
        yaml.safe_dump({"source": s.source, "planner": s.planner, "sampler": s.pipe.conf}, fh, sort_keys=False)
    with open(os.path.join(path, "plan.yaml"), "w", encoding="utf-8") as fh:
        yaml.safe_dump(s.plan, fh, sort_keys=False)
    argv = ["-c", "c.yaml", command] + ["--truncate"] * s.truncate + ["--create"] * s.create
    code, _, err = cli.inproc(argv, path)
    if code == 0:
        return None
    lines = [line for line in err.splitlines() if not line.startswith(("INFO", "DEBUG"))]
    return "\n".join(lines) or " "


def control(ctx, s):
    """Without a defect the same configuration works (otherwise refusals would mean nothing)."""
    if s.merge or s.absent:
        s.merge, s.create, s.absent, s.prepared = False, False, [], s.pipe.keys
    s.install()
    s.pipe.conf.pop("multiplicity", None)
    s.truncate = True
    ctx.judging()
    s.pipe.source.close()
    s.pipe.dest.endpoint.close()
    message = run_api(s) if ctx.index % 2 else run_cli(ctx, s)
    if message is not None:
        raise Violation("a valid configuration was refused", error=message[:500], sampler=s.pipe.conf)
    ctx.count("controls")
    ctx.nontrivial = False
    ctx.sign("control", scen.signature_of(s.pipe.world, s.pipe.sub.cfg))
