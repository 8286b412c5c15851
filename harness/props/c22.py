"""C22: a failing database statement is reported and leaves no silent damage."""

import collections
import os
import random
import re

import yaml

import cli
import predict
import scen
import subj
from faults import Faults
from props.c10 import snapshot
from props.c28 import _holds
from props.pipeline import Pipe, avoid_conflicts, small_shape
from runner import Skip, Violation

SLICES = 6
CONF = {
    "cases": {"quick": 600, "thorough": 12000},
    "cap": {"quick": 40, "thorough": 820},
    "case_limit": 150,
    "level": "fault_enumeration",
    "rule": "for each scenario (fresh, truncating, merging or creating destination; filters, compaction, multiplicity; several batches) every single "
    "connect, execute, fetch and commit of a planning or sampling run is made to fail in turn, before or after it took effect, with or without "
    "loss of the connection (scenarios are split over several cases by position); the run has to end with an error and must not have altered, "
    "duplicated or dangling rows; repeated runs with truncation are compared in full; non-trivial: at least one injected failure was judged",
    "need": {"faults": 700, "fault.execute": 300, "fault.fetch": 250, "fault.commit": 8, "fault.connect": 5, "reruns": 90, "cli_runs": 100,
             "partial_destinations": 100, "plan_faults": 150},
}


# SQLAlchemy's reflection has fallbacks of its own for these; indexes of temporary tables
# are only an optimisation that a run can do without
CATALOGUE = re.compile(r"sqlite_(temp_)?master|^\s*(pragma|show|describe)\b|information_schema|pg_catalog|^\s*create (unique )?index\b", re.I)


def statement_kind(text):
    if CATALOGUE.search(text):
        return "catalogue"
    found = re.search(r"setval|last_value|serial_sequence|max\(|create \w+ table|create table|create temporary", text, re.I)
    return found.group().lower() if found else text.strip().split(" ", 1)[0].lower()


def tolerated(faults, before):
    """A failure after which the library may still have found out what it needed."""
    kind, text = faults.fired
    return bool(CATALOGUE.search(text if kind == "execute" else before))


class Scenario:
    def __init__(self, ctx, rng):
        self.ctx = ctx
        # (everything that makes up the scenario is drawn from its own generator)
        saved, ctx.rng = ctx.rng, rng
        try:
            self._build(ctx, rng)
        finally:
            ctx.rng = saved

    def _build(self, ctx, rng):
        shape = small_shape(rng, rows=(1, 7), tables=(2, 4), uniq=0.0, neg_ids=0.0, shared_cols=0.0, big=0.12, autoinc=0.9)
        pipe = self.pipe = Pipe(ctx, shape, cross=0.2, passthrough=0.25)
        mode = self.mode = rng.choice(["fresh", "truncate", "truncate", "merge", "create", "create"])
        if mode == "create" and pipe.dest_dialect != pipe.dialect:
            mode = self.mode = "truncate"
        if rng.random() < 0.3:
            pipe.gen_filters(omit=False)
        if mode != "merge" and rng.random() < 0.25:
            pipe.gen_compact(columns=False)
        if mode != "merge" and rng.random() < 0.2:
            pipe.gen_multiplicity()
            pipe.conf["multiplicity"].pop("ignore_primary_key_columns", None)
        if mode == "merge":
            pipe.conf["output"] = {"merge": True}
        if mode in ("truncate", "merge"):
            pipe.fill_dest(shape=small_shape(rng, rows=(1, 5), neg_ids=0.0))
        self.base = {}
        try:
            if mode == "merge":
                avoid_conflicts(pipe)
                self.base = pipe.existing
            delivered = pipe.model(existing=self.base).delivered()
            self.expected = pipe.expect_all(delivered, existing=self.base)
            self.again = pipe.expect_all(pipe.model(existing={}).delivered(), existing={})
        except (predict.Refused, predict.Ambiguous) as exc:
            raise Skip("refused") from exc
        for key in pipe.keys:
            pk = pipe.world.tables[key].pk
            vals = [tuple(r.get(c) for c in pk) for r in self.expected[key]]
            if pk and len(set(vals)) != len(vals):
                raise Skip("duplicate keys")
        if mode == "create" and not _holds(pipe, self.expected):
            raise Skip("foreign keys do not hold")
        self.prepared = pipe.keys if mode != "create" else [k for k in pipe.keys if rng.random() < 0.2]
        self.kw = {"truncate": mode == "truncate" or (mode == "create" and rng.random() < 0.3), "create": mode == "create"}
        self.enforce = rng.random() < 0.5
        self.strategy = rng.choice([None, "error", "skip", "replace"]) if mode != "merge" else None
        self.fks = "all" if mode in ("fresh", "truncate") else "none"
        self.drop = pipe.sub.droppable_fks(pipe.keys)

    def reset(self):
        """The destination as it is before the run."""
        pipe = self.pipe
        state = self.ctx.rng.getstate()
        pipe.make_dest(fks=self.fks, uniques=False, autoinc=None if pipe.dest_dialect == "postgres" else False, prepared=self.prepared)
        pipe.put_existing()
        self.ctx.rng.setstate(state)
        out = pipe.dest.output(**({"merge": True} if self.mode == "merge" else {}))
        if self.strategy:
            out["conflict_strategy"] = self.strategy
        out["session_sqls"] = {
            "sqlite": ["PRAGMA foreign_keys=" + ("ON" if self.enforce else "OFF")],
            "postgres": [] if self.enforce else ["SET session_replication_role = replica"],
            "mysql": [] if self.enforce else ["SET foreign_key_checks=0"],
        }[pipe.dest_dialect]
        pipe.conf["output"] = out
        pipe.source.close()
        pipe.dest.endpoint.close()

    def run(self, kw=None):
        pipe = self.pipe
        try:
            subj.sample(pipe.source.config(), pipe.conf, pipe.sub.plan_obj, **(self.kw if kw is None else kw))
        finally:
            subj.close_all()

    def plan(self):
        try:
            return subj.plan(self.pipe.source.config(), self.pipe.sub.cfg)
        finally:
            subj.close_all()

    def contents(self):
        pipe = self.pipe
        have = pipe.dest.tables()
        result = {}
        for key in pipe.keys:
            if pipe.dest.keys[key] in have:
                names = pipe.dest_names(key)
                result[key] = scen.ident_rows(pipe.read(key), names)
        return result

    def judge(self, fault, where):
        """After a failure: nothing altered, duplicated or dangling."""
        pipe = self.pipe
        got = self.contents()
        partial = 0
        for key, rows in got.items():
            names = pipe.dest_names(key)
            old = scen.ident_rows(pipe.existing.get(key, []), names)
            want = scen.ident_rows(self.expected[key], names)
            kept = old & rows
            if self.kw["truncate"]:
                allowed = old | want
            else:
                allowed = want
                if kept != old:
                    raise Violation(f"existing rows of {scen.full(key)} changed in a failing run", fault=fault, at=where)
            bad = rows - allowed
            if bad:
                raise Violation(f"{scen.full(key)} holds altered or duplicated rows after a failure", fault=fault, at=where, rows=[list(map(str, r)) for r in list(bad)[:5]])
            partial += bool(rows) and rows != want
            for fk in pipe.world.tables[key].fks:
                # references that hold in the complete result
                if fk.ref not in got or fk.ref == key:
                    continue
                rnames = pipe.dest_names(fk.ref)
                full = {tuple(r[c] for c in fk.ref_cols) for r in self.expected[fk.ref]}
                have = {tuple(r[rnames.index(c)] for c in fk.ref_cols) for r in got[fk.ref]}
                fresh = rows - old
                for row in fresh:
                    val = tuple(row[names.index(c)] for c in fk.cols)
                    if None not in val and val in full and val not in have and self.declared(key, fk):
                        raise Violation(f"row of {scen.full(key)} refers to a row of {scen.full(fk.ref)} that was not delivered", fault=fault, at=where, value=str(val))
        self.ctx.count("partial_destinations", partial > 0)

    def declared(self, key, fk):
        """The destination knows the relation (only then it can order its rows)."""
        if self.pipe.dest_dialect == "sqlite" and self.pipe.dest.keys[key][0] != self.pipe.dest.keys[fk.ref][0]:
            return False
        if self.mode == "create":
            return key not in self.prepared
        return self.fks == "all" and (key, fk.ident()) not in self.drop


def case(ctx):
    number, part = divmod(ctx.index, SLICES)
    rng = random.Random(f"c22/{ctx.seed}/{number}")
    random.seed(f"c22/{number}")
    scene = Scenario(ctx, rng)
    pipe = scene.pipe
    before = snapshot(pipe.source)
    # how many interactions are there?
    scene.reset()
    ctx.judging()
    with Faults() as count_plan:
        plan = scene.plan()
    if subj.dump_plan(plan) != pipe.sub.doc:
        raise Violation("planning twice gives different plans")
    with Faults() as count:
        scene.run()
    total_plan, total = count_plan.count, count.count
    if scene.contents() != {k: scen.ident_rows(v, pipe.dest_names(k)) for k, v in scene.expected.items()}:
        raise Violation("the run without failures delivered something else", mode=scene.mode)
    ctx.info["mode"] = [scene.mode, scene.kw]
    ctx.info["sampler"] = pipe.conf
    work = [("plan", n) for n in range(1, total_plan + 1)] + [("sample", n) for n in range(1, total + 1)]
    mine = [w for i, w in enumerate(work) if i % SLICES == part]
    if ctx.tier == "quick" and len(mine) > 45:
        # every kind of interaction at least once
        kinds = collections.defaultdict(list)
        for command, at in mine:
            kind, text = (count_plan if command == "plan" else count).steps[at - 1]
            kinds[command, kind, statement_kind(text)].append((command, at))
        picked = {ctx.rng.choice(found) for found in kinds.values()}
        ctx.count("statement_kinds", len(kinds))
        rest = [w for w in mine if w not in picked]
        picked |= set(ctx.rng.sample(rest, max(0, min(len(rest), 45 - len(picked)))))
        mine = [w for w in mine if w in picked]
    for num, (command, at) in enumerate(mine):
        after, lost = ctx.rng.random() < 0.4, ctx.rng.random() < 0.4
        if command == "plan":
            plan_fault(ctx, scene, at, after, lost, via_cli=num % 5 == 0)
        else:
            sample_fault(ctx, scene, at, after, lost, via_cli=num % 6 == 0, rerun=num % 4 == 1)
    pipe.dest.endpoint.close()
    if snapshot(pipe.source) != before:
        raise Violation("the source changed")
    ctx.nontrivial = True
    ctx.count("interactions", len(mine))
    ctx.count("interactions_of_scenario", total + total_plan if part == 0 else 0)
    ctx.sign(number, part, scen.signature_of(pipe.world, pipe.sub.cfg, scene.mode))
    if ctx.index < 2 * SLICES and part == 0:
        ctx.sample = {"mode": scene.mode, "interactions": collections.Counter(count.kinds), "dialects": [pipe.dialect, pipe.dest_dialect]}


def write(path, data):
    with open(path, "w", encoding="utf-8") as fh:
        yaml.safe_dump(data, fh, sort_keys=False)


def note(ctx, faults, command):
    ctx.count("faults")
    ctx.count(f"fault.{faults.fired[0]}")
    ctx.count("plan_faults", command == "plan")


def plan_fault(ctx, scene, at, after, lost, via_cli):
    pipe = scene.pipe
    faults = Faults(at, after, lost)
    where = ["plan", at, "after" if after else "before", "lost" if lost else ""]
    failed = False
    if via_cli:
        path = scen.scratch_dir(ctx, "cli")
        write(os.path.join(path, "c.yaml"), {"source": pipe.source.config(), "planner": pipe.sub.cfg})
        with faults:
            code, out, err = cli.inproc(["-c", "c.yaml", "plan", "-o", "plan.yaml"], path)
        failed = code != 0
        if failed and os.path.exists(os.path.join(path, "plan.yaml")):
            raise Violation("a plan was written although planning failed", fault=faults.fired, at=where)
        if failed and not err.strip():
            raise Violation("no error message", fault=faults.fired, at=where, out=out[:300])
        ctx.count("cli_runs")
    else:
        with faults:
            try:
                plan = scene.plan()
            except Exception:  # pylint: disable=broad-exception-caught
                failed = True
    if faults.fired is None:
        ctx.count("not_reached")
        return
    note(ctx, faults, "plan")
    if not failed and tolerated(faults, faults.last):
        ctx.count("library_fallbacks")
        if not via_cli and subj.dump_plan(plan) != pipe.sub.doc:
            raise Violation("a failure was ignored and changed the plan", fault=faults.fired, at=where)
    elif not failed:
        raise Violation(f"planning reported success although {faults.fired[0]} number {at} failed", fault=faults.fired, at=where)


def sample_fault(ctx, scene, at, after, lost, via_cli, rerun):
    pipe = scene.pipe
    scene.reset()
    flavour = ctx.rng.choice(Faults.FLAVOURS) if not lost and ctx.rng.random() < 0.6 else None
    sticky = ctx.rng.random() < 0.4
    faults = Faults(at, after, lost, flavour, sticky)
    where = ["sample", at, "after" if after else "before", "lost" if lost else "", flavour or "", "sticky" if sticky else ""]
    ctx.count(f"flavour.{flavour}")
    ctx.count("sticky", sticky)
    failed = False
    if via_cli:
        path = scen.scratch_dir(ctx, "cli")
        write(os.path.join(path, "c.yaml"), {"source": pipe.source.config(), "planner": pipe.sub.cfg, "sampler": pipe.conf})
        write(os.path.join(path, "plan.yaml"), pipe.sub.doc)
        argv = ["-c", "c.yaml", "sample", "--plan", "plan.yaml"] + [f"--{n}" for n, v in scene.kw.items() if v]
        with faults:
            code, _, err = cli.inproc(argv, path)
        failed = code != 0
        if failed and not err.strip():
            raise Violation("no error message", fault=faults.fired, at=where)
        ctx.count("cli_runs")
    else:
        with faults:
            try:
                scene.run()
            except Exception:  # pylint: disable=broad-exception-caught
                failed = True
    if faults.fired is None:
        ctx.count("not_reached")
        return
    note(ctx, faults, "sample")
    ctx.count("sequence_faults", "setval(" in faults.fired[1] or "last_value" in faults.fired[1] or "serial_sequence" in faults.fired[1])
    if not failed:
        complete = scene.contents() == {k: scen.ident_rows(v, pipe.dest_names(k)) for k, v in scene.expected.items()}
        if not (complete and tolerated(faults, faults.last)):
            raise Violation(f"sampling reported success although {faults.fired[0]} number {at} failed", fault=faults.fired, at=where, complete=complete,
                            statement=faults.last)
        ctx.count("library_fallbacks")
    scene.judge(faults.fired, where)
    if rerun:
        pipe.source.close()
        pipe.dest.endpoint.close()
        try:
            scene.run({**scene.kw, "truncate": True})
        except Exception as exc:
            raise Violation(f"running again with truncation failed: {type(exc).__name__}: {exc}"[:600], fault=faults.fired, at=where) from exc
        got = scene.contents()
        for key in pipe.keys:
            want = scen.ident_rows(scene.again[key], pipe.dest_names(key))
            if got.get(key) != want:
                raise Violation(f"running again with truncation gave a wrong {scen.full(key)}", fault=faults.fired, at=where,
                                **scen.diff(want, got.get(key) or collections.Counter()))
        ctx.count("reruns")
