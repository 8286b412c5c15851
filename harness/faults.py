"""Makes single interactions with the database drivers fail.

The three drivers are patched at their DB-API boundary while a run is going on: connecting, executing,
fetching and committing are numbered, and the chosen number fails with the driver's own error, either
before the driver did anything or after it did everything.
"""

from __future__ import annotations

import re
import sqlite3
from typing import Any, Callable, List, Optional, Tuple

PING = re.compile(r"^\s*select 1\s*;?\s*$", re.I)


class Faults:
    """Context manager; `at` is the number of the interaction that fails (None: just count)."""

    FLAVOURS = ("integrity", "data", "programming", "internal", "unsupported")

    def __init__(self, at: Optional[int] = None, after: bool = False, lost: bool = False,
                 flavour: Optional[str] = None, sticky: bool = False) -> None:
        self.at = at
        self.after = after
        self.sticky = sticky  # the same statement fails again
        self.text = ""
        self.flavour = flavour  # another class of errors than operational ones
        self.lost = lost  # the connection is unusable from then on
        self.count = 0
        self.fired: Optional[Tuple[str, str]] = None
        self.dead: List[Any] = []
        self.kinds: List[str] = []
        self.steps: List[Tuple[str, str]] = []  # kind and the statement it belongs to
        self.last = ""
        self.saved: List[Tuple[Any, str, Any]] = []

    # -- the core: every interaction passes through here
    def step(self, kind: str, text: str, conn: Any, error: Callable[[], Exception], real: Callable[[], Any]) -> Any:
        if any(conn is d for d in self.dead):
            raise error()
        if kind == "execute" and PING.match(text):
            return real()
        self.count += 1
        self.kinds.append(kind)
        if kind == "execute" and self.fired is None:
            self.last = text  # the statement a failing fetch belongs to
        self.steps.append((kind, self.last))
        if self.count != self.at:
            if self.sticky and self.fired and kind == self.fired[0] == "execute" and text == self.text:
                raise error()
            return real()
        self.fired = (kind, text[:200])
        self.text = text
        if self.after:
            try:
                real()
            except Exception:  # pylint: disable=broad-exception-caught
                pass
        if self.lost and conn is not None:
            self.dead.append(conn)
        raise error()

    def _patch(self, owner: Any, name: str, value: Any) -> None:
        self.saved.append((owner, name, owner.__dict__[name] if isinstance(owner, type) and name in owner.__dict__ else getattr(owner, name)))
        setattr(owner, name, value)

    def __enter__(self) -> "Faults":
        self._sqlite()
        self._postgres()
        self._mysql()
        return self

    def __exit__(self, *_exc) -> bool:
        for owner, name, value in reversed(self.saved):
            setattr(owner, name, value)
        self.saved.clear()
        return False

    # -- sqlite3
    def _sqlite(self) -> None:
        outer = self

        def error():
            if outer.flavour:
                clazz, text = {
                    "integrity": (sqlite3.IntegrityError, "CHECK constraint failed: injected"),
                    "data": (sqlite3.DataError, "string or blob too big (injected)"),
                    "programming": (sqlite3.ProgrammingError, "no such thing (injected)"),
                    "internal": (sqlite3.InternalError, "injected"),
                    "unsupported": (sqlite3.NotSupportedError, "injected"),
                }[outer.flavour]
                return clazz(text)
            return sqlite3.OperationalError("disk I/O error (injected)" if outer.lost else "database is locked (injected)")

        class Cursor(sqlite3.Cursor):
            def execute(self, sql, *args):
                return outer.step("execute", sql, self.connection, error, lambda: super(Cursor, self).execute(sql, *args))

            def executemany(self, sql, *args):
                return outer.step("execute", sql, self.connection, error, lambda: super(Cursor, self).executemany(sql, *args))

            def fetchone(self):
                return outer.step("fetch", "", self.connection, error, super().fetchone)

            def fetchmany(self, *args, **kw):
                return outer.step("fetch", "", self.connection, error, lambda: super(Cursor, self).fetchmany(*args, **kw))

            def fetchall(self):
                return outer.step("fetch", "", self.connection, error, super().fetchall)

        class Connection(sqlite3.Connection):
            def cursor(self, factory=Cursor):
                return super().cursor(factory)

            def commit(self):
                return outer.step("commit", "", self, error, super().commit)

        real = sqlite3.dbapi2.connect

        def connect(*args, **kw):
            kw.setdefault("factory", Connection)
            return outer.step("connect", str(args[:1]), None, error, lambda: real(*args, **kw))

        for owner in (sqlite3.dbapi2, sqlite3):
            self._patch(owner, "connect", connect)

    # -- psycopg2
    def _postgres(self) -> None:
        import psycopg2  # pylint: disable=import-outside-toplevel
        import psycopg2.errors  # pylint: disable=import-outside-toplevel
        import psycopg2.extensions as ext  # pylint: disable=import-outside-toplevel

        outer = self

        def error():
            if outer.flavour:
                clazz, text = {
                    "integrity": (psycopg2.errors.CheckViolation, "violates check constraint (injected)"),
                    "data": (psycopg2.errors.NumericValueOutOfRange, "out of range (injected)"),
                    "programming": (psycopg2.errors.InsufficientPrivilege, "permission denied (injected)"),
                    "internal": (psycopg2.errors.RaiseException, "raised by a trigger (injected)"),
                    "unsupported": (psycopg2.errors.FeatureNotSupported, "injected"),
                }[outer.flavour]
                return clazz(text)
            return psycopg2.OperationalError(
                "terminating connection due to administrator command (injected)" if outer.lost else "canceling statement due to lock timeout (injected)")

        class Cursor(ext.cursor):
            def execute(self, sql, *args, **kw):
                return outer.step("execute", str(sql), self.connection, error, lambda: super(Cursor, self).execute(sql, *args, **kw))

            def executemany(self, sql, *args, **kw):
                return outer.step("execute", str(sql), self.connection, error, lambda: super(Cursor, self).executemany(sql, *args, **kw))

            def fetchone(self):
                return outer.step("fetch", "", self.connection, error, super().fetchone)

            def fetchmany(self, *args, **kw):
                return outer.step("fetch", "", self.connection, error, lambda: super(Cursor, self).fetchmany(*args, **kw))

            def fetchall(self):
                return outer.step("fetch", "", self.connection, error, super().fetchall)

        class Connection(ext.connection):
            def commit(self):
                return outer.step("commit", "", self, error, super().commit)

        real = psycopg2.connect

        def connect(*args, **kw):
            kw.setdefault("cursor_factory", Cursor)
            kw.setdefault("connection_factory", Connection)
            return outer.step("connect", str(kw.get("dbname")), None, error, lambda: real(*args, **kw))

        self._patch(psycopg2, "connect", connect)

    # -- pymysql
    def _mysql(self) -> None:
        import pymysql  # pylint: disable=import-outside-toplevel
        import pymysql.connections as cons  # pylint: disable=import-outside-toplevel
        import pymysql.cursors as curs  # pylint: disable=import-outside-toplevel

        outer = self

        def error():
            if outer.flavour:
                clazz, code, text = {
                    "integrity": (pymysql.err.IntegrityError, 1048, "Column cannot be null (injected)"),
                    "data": (pymysql.err.DataError, 1264, "Out of range value (injected)"),
                    "programming": (pymysql.err.ProgrammingError, 1142, "command denied (injected)"),
                    "internal": (pymysql.err.InternalError, 3100, "injected"),
                    "unsupported": (pymysql.err.NotSupportedError, 1235, "injected"),
                }[outer.flavour]
                return clazz(code, text)
            if outer.lost:
                return pymysql.err.OperationalError(2006, "injected")
            return pymysql.err.OperationalError(1205, "Lock wait timeout exceeded (injected)")

        def wrap(cls, name, kind):
            orig = cls.__dict__[name]

            def method(cursor, *args, **kw):
                text = str(args[0]) if kind == "execute" and args else ""
                if name == "executemany" or getattr(cursor, "_sbst", False):
                    # (executemany and fetch methods use each other)
                    return nested(cursor, orig, text, args, kw) if not getattr(cursor, "_sbst", False) else orig(cursor, *args, **kw)
                return nested(cursor, orig, text, args, kw)

            def nested(cursor, func, text, args, kw):
                def run():
                    cursor._sbst = True
                    try:
                        return func(cursor, *args, **kw)
                    finally:
                        cursor._sbst = False
                return outer.step(kind, text, cursor.connection, error, run)

            outer._patch(cls, name, method)

        for name, kind in (("execute", "execute"), ("executemany", "execute"), ("fetchone", "fetch"), ("fetchmany", "fetch"), ("fetchall", "fetch")):
            wrap(curs.Cursor, name, kind)
            if name in curs.SSCursor.__dict__:
                wrap(curs.SSCursor, name, kind)
        commit = cons.Connection.commit
        self._patch(cons.Connection, "commit", lambda conn: outer.step("commit", "", conn, error, lambda: commit(conn)))
        real = pymysql.connect

        def connect(*args, **kw):
            return outer.step("connect", str(kw.get("user")), None, error, lambda: real(*args, **kw))

        for name in ("connect", "Connect", "Connection"):
            if hasattr(pymysql, name) and name != "Connection":
                self._patch(pymysql, name, connect)
