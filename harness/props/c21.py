"""C21: the destination is consistent at every commit."""

import json
import os
import re
import signal
import sqlite3
import traceback

import predict
import scen
import subj
from monitor import Monitor
from props.c15 import _type_of
from props.c28 import _holds
from props.pipeline import Pipe, avoid_conflicts, small_shape
from runner import Skip, Violation
from world import refill

CONF = {
    "cases": {"quick": 500, "thorough": 10000},
    "cap": {"quick": 38, "thorough": 800},
    "rule": "destinations with declared but mostly unenforced foreign keys that hold consistent rows in sampled tables, other tables of the world and "
    "additional direct and indirect dependents; runs truncating, merging, creating and filling, some interrupted by an error or killed at a random "
    "event; a second raw connection evaluates every declared foreign key of the destination before each statement and transaction begin and at the "
    "end; non-trivial: at least three distinct states were seen between start and end",
    "need": {"states_checked": 1465, "distinct_states": 326, "enforced_off": 71, "killed": 15, "interrupted": 16, "truncating": 45, "merging": 15,
             "created": 13, "fks_evaluated": 8000, "own_keys": 57, "own_rows": 68},
}


NO_COMMIT = re.compile(r"^\s*(insert|delete|update|select|pragma|show|set)\b", re.I)


class Injected(Exception):
    pass


class Watcher:
    """Evaluates the destination's foreign keys on a connection of its own."""

    def __init__(self, ctx, ep, links, tables, grows):
        self.grows = grows
        self.ctx, self.ep = ctx, ep
        self.links = links  # (child key, cols, parent key, ref cols)
        self.tables = tables
        self.bad = None
        self.states = set()
        self.partial = 0

    def check(self, when):
        if self.bad:
            return
        ep = self.ep
        try:
            have = set(ep.tables()) if self.grows else set(self.tables)
            there = [key for key in self.tables if key in have]
            live = [link for link in self.links if link[0] in have and link[2] in have]
            parts = [f"(SELECT COUNT(*) FROM {ep.qt(*key)})" for key in there]
            for child, cols, parent, ref_cols in live:
                match = " AND ".join(f"p.{ep.q(r)} = c.{ep.q(c)}" for c, r in zip(cols, ref_cols))
                given = " AND ".join(f"c.{ep.q(c)} IS NOT NULL" for c in cols)
                parts.append(f"(SELECT COUNT(*) FROM {ep.qt(*child)} c WHERE {given} AND NOT EXISTS"
                             f" (SELECT 1 FROM {ep.qt(*parent)} p WHERE {match}))")
            got = list(ep.rows("SELECT " + ", ".join(parts))[0]) if parts else []
            self.ctx.count("fks_evaluated", len(live))
            for (child, cols, parent, _), num in zip(live, got[len(there):]):
                if num:
                    self.bad = {"when": when, "child": child, "columns": cols, "parent": parent, "rows": num}
                    return
            counts = dict(zip(there, got))
            counts = [counts.get(key, -1) for key in self.tables]
        except sqlite3.OperationalError as exc:
            if "locked" not in str(exc):
                raise
            self.ctx.count("locked")
            return
        self.ctx.count("states_checked")
        self.states.add(tuple(counts))


def prune(pipe, links):
    """Remove existing rows until all declared keys hold."""
    grew = True
    while grew:
        grew = False
        for child, cols, parent, ref_cols in links:
            have = {tuple(r[c] for c in ref_cols) for r in pipe.existing.get(parent, [])}
            rows = pipe.existing.get(child, [])
            keep = [r for r in rows if any(r[c] is None for c in cols) or tuple(r[c] for c in cols) in have]
            if len(keep) != len(rows):
                pipe.existing[child] = keep
                grew = True


def own_keys(ctx, pipe, there, links):
    """Foreign keys only the destination declares."""
    rng = ctx.rng
    world, dest, ep = pipe.world, pipe.dest, pipe.dest.endpoint
    if '"lnk"' in json.dumps(pipe.sub.cfg):
        return
    for key in rng.sample(there, k=len(there)):
        refs = [k for k in there if k != key and len(world.tables[k].pk) == 1 and world.tables[k].col(world.tables[k].pk[0]).kind == "int"
                and not reaches(links, k, key) and (ep.dialect != "sqlite" or dest.keys[k][0] == dest.keys[key][0])]
        if not refs or rng.random() < 0.4:
            continue
        # (mostly tables the source's own order has later)
        order = list(world.tables)
        later = [k for k in refs if order.index(k) > order.index(key) and k in pipe.keys]
        ref = rng.choice(later if later and rng.random() < 0.7 else refs)
        (pk,) = world.tables[ref].pk
        target = ep.q(dest.keys[ref][1]) if ep.dialect == "sqlite" else ep.qt(*dest.keys[ref])
        table = ep.qt(*dest.keys[key])
        if ep.dialect == "sqlite":
            ep.run(f"ALTER TABLE {table} DROP COLUMN lnk", f"ALTER TABLE {table} ADD COLUMN lnk INTEGER REFERENCES {target} ({ep.q(pk)})")
        else:
            ep.run(f"ALTER TABLE {table} ADD FOREIGN KEY (lnk) REFERENCES {target} ({ep.q(pk)})")
        links.append((key, ("lnk",), ref, (pk,)))
        ctx.count("own_keys")
        # (the planner does not know it, so the rows have to fit by themselves)
        if key in pipe.keys and ref in pipe.keys:
            have = [r[pk] for r in pipe.samples[ref]]
        else:
            have = []
        todo = []
        for row in world.tables[key].rows:
            if have and rng.random() < 0.7:
                row["lnk"] = rng.choice(have)
                todo.append((row["lnk"], row["rid"]))
        for val, rid in todo:
            pipe.source.run(f"UPDATE {pipe.source.qt(*key)} SET lnk = {val} WHERE rid = {rid}")
        ctx.count("own_rows", len(todo))


def reaches(links, start, goal):
    seen, todo = set(), [start]
    while todo:
        one = todo.pop()
        if one == goal:
            return True
        if one not in seen:
            seen.add(one)
            todo += [parent for child, _, parent, _ in links if child == one]
    return False


def case(ctx):
    rng = ctx.rng
    shape = small_shape(rng, rows=(1, 9), tables=(2, 7), uniq=0.0, neg_ids=0.0, shared_cols=0.0, big=0.05 if ctx.index % 6 == 0 else 0.0,
                        lnk=ctx.index % 4 > 0, allpk=0.0)
    pipe = Pipe(ctx, shape, cross=0.2, passthrough=0.25, ignore=0.1, knobs=0.1, subset_select=0.5)
    world = pipe.world
    mode = rng.choice(["truncate", "truncate", "truncate", "merge", "fresh", "create"])
    if mode == "create" and pipe.dest_dialect != pipe.dialect:
        mode = "truncate"
    if mode in ("truncate", "fresh") and rng.random() < 0.4:
        if rng.random() < 0.5:
            pipe.gen_compact(columns=False)
        else:
            pipe.gen_multiplicity()
            pipe.conf["multiplicity"].pop("ignore_primary_key_columns", None)
    dest = scen.Dest(ctx, world, pipe.dest_dialect)
    pipe.dest = dest
    ep = dest.endpoint
    if mode == "create":
        everything = [k for k in pipe.keys if rng.random() < 0.3]
        drop = set()
    else:
        everything = [k for k in world.tables if k in pipe.keys or rng.random() < 0.7]
        drop = pipe.sub.droppable_fks(pipe.keys) | {
            (key, fk.ident()) for key in pipe.keys for fk in world.tables[key].fks if fk.ref not in pipe.keys
        }
    # a destination whose foreign keys form a cycle is refused
    drop |= {(key, fk.ident()) for key in world.tables for fk in world.tables[key].fks if fk.ref == key}
    dest.install(everything, fks="all", drop=drop, uniques=False, autoinc=False)
    there = everything if mode != "create" else pipe.keys
    links = []
    for key in there:
        for fk in world.tables[key].fks:
            if fk.ref not in there or (key, fk.ident()) in drop:
                continue
            if ep.dialect == "sqlite" and dest.keys[key][0] != dest.keys[fk.ref][0]:
                continue
            if mode == "create" and key in everything and fk.ref not in everything:
                continue
            links.append((key, fk.cols, fk.ref, fk.ref_cols))
    if shape.lnk and not {"compact", "multiplicity"} & set(pipe.conf):
        own_keys(ctx, pipe, there if mode != "create" else everything, links)
    if mode in ("truncate", "merge"):
        other = refill(rng, world, shape)
        for key in everything:
            pipe.existing[key] = list(other.tables[key].rows)
        for key, cols, ref, ref_cols in links:
            if cols == ("lnk",):
                for row in pipe.existing[key]:
                    row["lnk"] = rng.choice([None, *(r[ref_cols[0]] for r in pipe.existing[ref])])
        if mode == "merge":
            pipe.conf["output"] = {"merge": True}
            try:
                avoid_conflicts(pipe)
                prune(pipe, links)
                avoid_conflicts(pipe)
            except (predict.Ambiguous, predict.Refused) as exc:
                raise Skip("ambiguous") from exc
        prune(pipe, links)
        todo = list(everything)
        while todo:
            # (declared references first)
            key = next(k for k in todo if not any(child == k and parent in todo and parent != k for child, _, parent, _ in links))
            todo.remove(key)
            names = world.tables[key].names()
            ep.insert(*dest.keys[key], names, [[r[n] for n in names] for r in _in_order(world, key, pipe.existing[key])])
    base = {} if mode != "merge" else pipe.existing
    try:
        delivered = pipe.model(existing=base).delivered()
    except (predict.Refused, predict.Ambiguous) as exc:
        raise Skip("refused") from exc
    expected = pipe.expect_all(delivered, existing=base)
    if mode == "merge":
        for key in pipe.keys:
            pk = world.tables[key].pk
            vals = [tuple(r[c] for c in pk) for r in expected[key]]
            if pk and len(set(vals)) != len(vals):
                raise Skip("offsets move onto existing rows")
    for child, cols, parent, ref_cols in links:
        if child in pipe.keys and parent in pipe.keys:
            have = {tuple(r[c] for c in ref_cols) for r in expected[parent]}
            if any(None not in [r[c] for c in cols] and tuple(r[c] for c in cols) not in have for r in expected[child]):
                raise Skip("the sample's references do not hold in the result")
    if mode == "create" and not _holds(pipe, expected):
        raise Skip("foreign keys do not hold")
    dlinks = [(dest.keys[c], cols, dest.keys[p], refs) for c, cols, p, refs in links]
    # additional dependents, direct and indirect
    watched = [dest.keys[k] for k in there]
    if mode == "truncate":
        pool = [(dest.keys[k], world.tables[k].pk[0], [r[world.tables[k].pk[0]] for r in pipe.existing[k]])
                for k in everything if len(world.tables[k].pk) == 1]
        for num in range(rng.randint(0, 4) if pool else 0):
            ref = rng.choice(pool[-3:] if rng.random() < 0.5 else pool)
            key = (ref[0][0], f"{rng.choice(['a', 'dep', 'Zz'])}{num}")
            target = ep.q(ref[0][1]) if ep.dialect == "sqlite" else ep.qt(*ref[0])
            ep.run(f"CREATE TABLE {ep.qt(*key)} ({ep.q('id')} INTEGER NOT NULL PRIMARY KEY, {ep.q('link')} {_type_of(ep, ref[0], ref[1])},"
                   f" FOREIGN KEY ({ep.q('link')}) REFERENCES {target} ({ep.q(ref[1])}))")
            rows = [(i + 1, rng.choice([None, *ref[2], *ref[2]])) for i in range(rng.randint(1, 4))]
            ep.insert(*key, ["id", "link"], rows)
            dlinks.append((key, ("link",), ref[0], (ref[1],)))
            watched.append(key)
            pool.append((key, "id", [r[0] for r in rows]))
    # switch enforcement off (mostly)
    enforced = rng.random() < 0.2
    out = dest.output(**({"merge": True} if mode == "merge" else {}))
    out["session_sqls"] = []
    if ep.dialect == "sqlite":
        out["session_sqls"] = ["PRAGMA foreign_keys=" + ("ON" if enforced else "OFF")]
    elif not enforced:
        out["session_sqls"] = ["SET session_replication_role = replica" if ep.dialect == "postgres" else "SET foreign_key_checks=0"]
    pipe.conf["output"] = out
    ctx.info["sampler"] = pipe.conf
    ctx.info["mode"] = [mode, enforced]
    ctx.count("enforced_off", not enforced)
    kw = {"truncate": mode == "truncate", "create": mode == "create"}
    if mode == "create" and rng.random() < 0.3:
        kw["truncate"] = True
    watcher = Watcher(ctx, ep, dlinks, watched, mode == "create")
    watcher.check("before the run")
    if watcher.bad:
        raise RuntimeError(f"the harness built an inconsistent destination: {watcher.bad}")
    how = rng.choice(["run", "run", "run", "interrupt", "kill"])
    pipe.source.close()
    if ep.dialect != "sqlite":
        # (a connection per look, as the run must not be blocked by it)
        ep.close()
    ctx.judging()
    if how == "kill":
        kill(ctx, pipe, kw, rng.randint(2, 60))
    else:
        at = rng.randint(1, 60) if how == "interrupt" else None
        seen = [0]
        stale = [6]

        def watch(kind, side, _conn, statement, _params):
            if side != "dest":
                return
            if kind == "commit" or (kind == "executed" and not NO_COMMIT.match(statement)):
                stale[0] = 6
            stale[0] += 1
            if kind in ("begin", "execute") and stale[0] > 6:
                stale[0] = 0
                watcher.check(f"before {kind} {str(statement)[:200]}")
            seen[0] += 1
            if seen[0] == at:
                ctx.count("interrupted")
                raise Injected("interrupted")

        error = None
        with Monitor(pipe.source.config(), out, watch):
            try:
                subj.sample(pipe.source.config(), pipe.conf, pipe.sub.plan_obj, **kw)
            except Exception as exc:  # pylint: disable=broad-exception-caught
                error = exc
            finally:
                subj.close_all()
        if error is not None and not (at and seen[0] >= at):
            raise Violation(f"sampling failed on a valid configuration: {type(error).__name__}: {error}"[:800]) from error
    watcher.check("after the run")
    if watcher.bad:
        raise Violation("the destination is inconsistent", **watcher.bad)
    if how == "run":
        for key in pipe.keys:
            pipe.compare(key, expected[key])
    ctx.count("distinct_states", len(watcher.states))
    ctx.count({"truncate": "truncating", "merge": "merging", "create": "created", "fresh": "fresh"}[mode])
    ctx.nontrivial = len(watcher.states) >= 3 or how == "kill"
    ctx.sign(scen.signature_of(world, pipe.sub.cfg, mode, enforced, how, len(watcher.states), ep.dialect))
    if ctx.index < 3:
        ctx.sample = {"mode": mode, "how": how, "states": sorted(watcher.states)[:8], "tables": [".".join(k) for k in watched]}


def _in_order(world, key, rows):
    """Rows a self reference allows to insert in this order."""
    return rows


def kill(ctx, pipe, kw, at):
    """The same run in a process that dies at some event at the destination."""
    path = os.path.join(ctx.bench.base, "kill.err")
    if os.path.exists(path):
        os.unlink(path)
    pipe.dest.endpoint.close()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            signal.setitimer(signal.ITIMER_REAL, 0)
            seen = [0]

            def watch(_kind, side, _conn, _statement, _params):
                if side == "dest":
                    seen[0] += 1
                    if seen[0] == at:
                        os.kill(os.getpid(), signal.SIGKILL)

            with Monitor(pipe.source.config(), pipe.conf["output"], watch):
                subj.sample(pipe.source.config(), pipe.conf, pipe.sub.plan_obj, **kw)
            code = 0
        except BaseException:  # pylint: disable=broad-exception-caught
            with open(path, "w", encoding="utf-8") as fh:
                fh.write(traceback.format_exc())
        finally:
            os._exit(code)
    _, status = os.waitpid(pid, 0)
    if os.WIFSIGNALED(status):
        ctx.count("killed")
    elif os.WEXITSTATUS(status):
        with open(path, encoding="utf-8") as fh:
            raise Violation("sampling failed on a valid configuration", error=fh.read()[-3000:])
