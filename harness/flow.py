"""Counts the rows that enter and leave the process at the database drivers.

Rows of the source count as soon as the driver holds them in this process: for buffering cursors that
is when a query was executed, for streaming ones when rows are fetched.
"""

from __future__ import annotations

import re
import sqlite3
from typing import Any, Callable, Dict, List, Optional, Tuple

INSERT = re.compile(r"^\s*(insert|replace|merge|copy)\b", re.I)


class Flow:
    """Context manager; `check(fetched, handed)` is called whenever rows arrived."""

    def __init__(self, source: Dict[str, Any], check: Callable[["Flow"], None], every: int = 200) -> None:
        self.source = source
        self.check = check
        self.every = every
        self.fetched = 0
        self.handed = 0
        self.largest = 0
        self.batches = 0
        self.seen = 0
        self.saved: List[Tuple[Any, str, Any]] = []

    def came(self, conn: Any, count: Optional[int]) -> None:
        if not count or count < 0 or getattr(conn, "sbst_side", None) != "source":
            return
        self.fetched += count
        if self.fetched - self.seen >= self.every:
            self.seen = self.fetched
            self.check(self)

    def went(self, conn: Any, sql: Any, count: int) -> None:
        if getattr(conn, "sbst_side", None) != "dest" or not INSERT.match(str(sql)) or count <= 0:
            return
        self.handed += count
        self.batches += 1
        self.largest = max(self.largest, count)

    def _patch(self, owner: Any, name: str, value: Any) -> None:
        self.saved.append((owner, name, owner.__dict__[name] if isinstance(owner, type) and name in owner.__dict__ else getattr(owner, name)))
        setattr(owner, name, value)

    def __enter__(self) -> "Flow":
        self._sqlite()
        self._postgres()
        self._mysql()
        return self

    def __exit__(self, *_exc) -> bool:
        for owner, name, value in reversed(self.saved):
            setattr(owner, name, value)
        self.saved.clear()
        return False

    def _sqlite(self) -> None:
        flow = self

        class Cursor(sqlite3.Cursor):
            def execute(self, sql, *args):
                result = super().execute(sql, *args)
                flow.went(self.connection, sql, self.rowcount)
                return result

            def executemany(self, sql, params=()):
                params = list(params)
                result = super().executemany(sql, params)
                flow.went(self.connection, sql, len(params))
                return result

            def fetchone(self):
                row = super().fetchone()
                flow.came(self.connection, row is not None)
                return row

            def fetchmany(self, *args, **kw):
                rows = super().fetchmany(*args, **kw)
                flow.came(self.connection, len(rows))
                return rows

            def fetchall(self):
                rows = super().fetchall()
                flow.came(self.connection, len(rows))
                return rows

            def __next__(self):
                row = super().__next__()
                flow.came(self.connection, 1)
                return row

        class Connection(sqlite3.Connection):
            def cursor(self, factory=Cursor):
                return super().cursor(factory)

        real = sqlite3.dbapi2.connect

        def connect(database, *args, **kw):
            kw.setdefault("factory", Connection)
            conn = real(database, *args, **kw)
            conn.sbst_side = "source" if flow.source["dialect"] == "sqlite" and database == flow.source["database"] else "dest"
            return conn

        for owner in (sqlite3.dbapi2, sqlite3):
            self._patch(owner, "connect", connect)

    def _postgres(self) -> None:
        import psycopg2  # pylint: disable=import-outside-toplevel
        import psycopg2.extensions as ext  # pylint: disable=import-outside-toplevel

        flow = self

        class Cursor(ext.cursor):
            def execute(self, sql, *args, **kw):
                super().execute(sql, *args, **kw)
                if self.name is None:
                    flow.came(self.connection, self.rowcount if self.description else 0)
                    flow.went(self.connection, sql, self.rowcount)

            def executemany(self, sql, params, *args, **kw):
                params = list(params)
                super().executemany(sql, params, *args, **kw)
                flow.went(self.connection, sql, len(params))

            def _got(self, count):
                if self.name is not None:
                    flow.came(self.connection, count)

            def fetchone(self):
                row = super().fetchone()
                self._got(row is not None)
                return row

            def fetchmany(self, *args, **kw):
                rows = super().fetchmany(*args, **kw)
                self._got(len(rows))
                return rows

            def fetchall(self):
                rows = super().fetchall()
                self._got(len(rows))
                return rows

            def __next__(self):
                row = super().__next__()
                self._got(1)
                return row

        class Connection(ext.connection):
            pass

        real = psycopg2.connect

        def connect(*args, **kw):
            kw.setdefault("cursor_factory", Cursor)
            kw.setdefault("connection_factory", Connection)
            conn = real(*args, **kw)
            same = flow.source["dialect"] == "postgres" and conn.info.dbname == flow.source.get("database")
            conn.sbst_side = "source" if same else "dest"
            return conn

        self._patch(psycopg2, "connect", connect)

    def _mysql(self) -> None:
        import pymysql  # pylint: disable=import-outside-toplevel
        import pymysql.cursors as curs  # pylint: disable=import-outside-toplevel

        flow = self
        execute, many, read_next = curs.Cursor.execute, curs.Cursor.executemany, curs.SSCursor.read_next

        def new_execute(cursor, query, args=None):
            result = execute(cursor, query, args)
            if not isinstance(cursor, curs.SSCursor):
                flow.came(cursor.connection, len(cursor._rows or ()))
            if not getattr(cursor, "sbst_many", False):
                flow.went(cursor.connection, query, cursor.rowcount)
            return result

        def new_many(cursor, query, args):
            args = list(args or ())
            cursor.sbst_many = True
            try:
                result = many(cursor, query, args)
            finally:
                cursor.sbst_many = False
            flow.went(cursor.connection, query, len(args))
            return result

        def new_read(cursor):
            row = read_next(cursor)
            flow.came(cursor.connection, row is not None)
            return row

        self._patch(curs.Cursor, "execute", new_execute)
        self._patch(curs.Cursor, "executemany", new_many)
        self._patch(curs.SSCursor, "read_next", new_read)
        real = pymysql.connect

        def connect(*args, **kw):
            conn = real(*args, **kw)
            same = flow.source["dialect"] == "mysql" and kw.get("user") == flow.source.get("username")
            conn.sbst_side = "source" if same else "dest"
            return conn

        for name in ("connect", "Connect"):
            if hasattr(pymysql, name):
                self._patch(pymysql, name, connect)
