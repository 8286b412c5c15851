"""Raw driver access to the databases under test.

Everything the oracles read or write goes through here: plain sqlite3 / psycopg2 / pymysql,
hand written DDL and literals.  Nothing in this module uses SQLAlchemy or the subject.
"""

from __future__ import annotations

import datetime
import decimal
import os
import shutil
import sqlite3
import tempfile
from typing import Any, Dict, List, Optional, Sequence, Tuple

DIALECTS = ("sqlite", "postgres", "mysql")


class InfraError(Exception):
    """The machinery (not the subject) failed."""


def literal(dialect: str, value: Any) -> str:
    if value is None:
        return "NULL"
    if isinstance(value, bool):
        if dialect == "postgres":
            return "TRUE" if value else "FALSE"
        return "1" if value else "0"
    if isinstance(value, int):
        return str(value)
    if isinstance(value, float):
        return repr(value)
    if isinstance(value, decimal.Decimal):
        return str(value)
    if isinstance(value, (bytes, bytearray)):
        if dialect == "postgres":
            return "'\\x" + bytes(value).hex() + "'"
        return "X'" + bytes(value).hex() + "'"
    if isinstance(value, datetime.datetime):
        return "'" + value.isoformat(sep=" ") + "'"
    if isinstance(value, (datetime.date, datetime.time)):
        return "'" + value.isoformat() + "'"
    if isinstance(value, str):
        text = value.replace("'", "''")
        if dialect == "mysql":
            text = text.replace("\\", "\\\\")
        return "'" + text + "'"
    raise TypeError(repr(value))


def ident(dialect: str, name: str) -> str:
    if dialect == "mysql":
        return "`" + name.replace("`", "``") + "`"
    return '"' + name.replace('"', '""') + '"'


class Endpoint:
    """One database installation that can hold several schemas."""

    dialect = ""

    def __init__(self) -> None:
        self.schemas: List[str] = []
        self._conn = None

    # -- connections -----------------------------------------------------------------
    def _connect(self):
        raise NotImplementedError

    @property
    def conn(self):
        if self._conn is None:
            self._conn = self._connect()
        return self._conn

    def close(self) -> None:
        if self._conn is not None:
            try:
                self._conn.close()
            except Exception:  # pylint: disable=broad-exception-caught
                pass
            self._conn = None

    def q(self, name: str) -> str:
        return ident(self.dialect, name)

    def qt(self, schema: str, table: str) -> str:
        return f"{self.q(schema)}.{self.q(table)}"

    def lit(self, value: Any) -> str:
        return literal(self.dialect, value)

    def run(self, *stmts: str) -> None:
        cur = self.conn.cursor()
        try:
            for stmt in stmts:
                cur.execute(stmt)
        finally:
            cur.close()
        self.conn.commit()

    def rows(self, stmt: str) -> List[tuple]:
        cur = self.conn.cursor()
        try:
            cur.execute(stmt)
            result = [tuple(row) for row in cur.fetchall()]
        finally:
            cur.close()
        self.conn.commit()
        return result

    def table(self, schema: str, table: str, cols: Optional[Sequence[str]] = None):
        """All rows of a table as tuples (column order as given / as declared)."""
        what = ", ".join(self.q(col) for col in cols) if cols else "*"
        return self.rows(f"SELECT {what} FROM {self.qt(schema, table)}")

    def tables(self) -> List[Tuple[str, str]]:
        raise NotImplementedError

    def columns(self, schema: str, table: str) -> List[str]:
        raise NotImplementedError

    def insert(self, schema, table, cols, rows, chunk: int = 400) -> None:
        rows = list(rows)
        names = ", ".join(self.q(col) for col in cols)
        for start in range(0, len(rows), chunk):
            vals = ",".join(
                "(" + ",".join(self.lit(v) for v in row) + ")"
                for row in rows[start : start + chunk]
            )
            self.run(f"INSERT INTO {self.qt(schema, table)} ({names}) VALUES {vals}")

    def reset(self, schemas: Sequence[str]) -> None:
        """Drop everything, then create the named (empty) schemas."""
        raise NotImplementedError

    def config(self, **extra) -> Dict[str, Any]:
        """Keyword arguments for subsetter's DatabaseConfig."""
        raise NotImplementedError

    def full_dump(self) -> Dict[str, Any]:
        """Everything observable: schema objects and all rows, for equality tests."""
        raise NotImplementedError


class SqliteEndpoint(Endpoint):
    dialect = "sqlite"

    def __init__(self, base: str, tag: str) -> None:
        super().__init__()
        self.dir = tempfile.mkdtemp(prefix=f"{tag}.", dir=base)
        self.tag = tag
        self.gen = 0

    def _connect(self):
        # isolation_level=None: autocommit, statements run exactly as written
        conn = sqlite3.connect(self.main_file, isolation_level=None)
        for schema in self.schemas:
            if schema != "main":
                conn.execute(f"ATTACH DATABASE ? AS {self.q(schema)}", (self.file(schema),))
        return conn

    @property
    def main_file(self) -> str:
        return self.file("main")

    def file(self, schema: str) -> str:
        return os.path.join(self.dir, f"{self.gen}-{schema}.db")

    def reset(self, schemas: Sequence[str]) -> None:
        self.close()
        for name in os.listdir(self.dir):
            os.unlink(os.path.join(self.dir, name))
        self.gen += 1
        self.schemas = list(schemas)
        cur = self.conn.cursor()
        for schema in {"main", *self.schemas}:
            cur.execute(f"PRAGMA {self.q(schema)}.journal_mode=MEMORY")
            cur.execute(f"PRAGMA {self.q(schema)}.synchronous=OFF")
            # materialise the file
            cur.execute(f"PRAGMA {self.q(schema)}.user_version=1")

    def config(self, **extra):
        return {
            "dialect": "sqlite",
            "database": self.main_file,
            "sqlite_databases": {
                schema: self.file(schema) for schema in self.schemas if schema != "main"
            },
            **extra,
        }

    def tables(self):
        result = []
        for schema in ["main"] + [s for s in self.schemas if s != "main"]:
            result.extend(
                (schema, row[0])
                for row in self.rows(
                    f"SELECT name FROM {self.q(schema)}.sqlite_master WHERE type='table'"
                    " AND name NOT LIKE 'sqlite_%' ORDER BY name"
                )
            )
        return result

    def columns(self, schema, table):
        # table_xinfo also lists generated columns
        return [
            row[1]
            for row in self.rows(f"PRAGMA {self.q(schema)}.table_xinfo({self.q(table)})")
        ]

    def full_dump(self):
        result: Dict[str, Any] = {}
        for schema in ["main"] + [s for s in self.schemas if s != "main"]:
            result[schema] = sorted(
                self.rows(f"SELECT type, name, tbl_name, sql FROM {self.q(schema)}.sqlite_master"),
                key=repr,
            )
        for schema, table in self.tables():
            result[f"{schema}.{table}"] = sorted(self.table(schema, table), key=repr)
        return result

    def file_bytes(self) -> Dict[str, bytes]:
        self.close()
        result = {}
        for name in sorted(os.listdir(self.dir)):
            with open(os.path.join(self.dir, name), "rb") as fh:
                result[name] = fh.read()
        return result


class PostgresEndpoint(Endpoint):
    dialect = "postgres"

    def __init__(self, info: Dict[str, Any], tag: str) -> None:
        super().__init__()
        self.info = info
        self.tag = tag
        self.session: List[str] = []
        self.database = f"w_{tag}"
        admin = self._admin()
        cur = admin.cursor()
        cur.execute(f'DROP DATABASE IF EXISTS "{self.database}" WITH (FORCE)')
        cur.execute(f'CREATE DATABASE "{self.database}" TEMPLATE template0')
        admin.close()

    def _admin(self, database: str = "postgres"):
        import psycopg2  # pylint: disable=import-outside-toplevel

        conn = psycopg2.connect(
            host=self.info["host"], port=self.info["port"],
            user=self.info["username"], dbname=database,
        )
        conn.autocommit = True
        return conn

    def _connect(self):
        return self._admin(self.database)

    def reset(self, schemas):
        cur = self.conn.cursor()
        cur.execute(
            "SELECT pg_terminate_backend(pid) FROM pg_stat_activity"
            " WHERE datname = current_database() AND pid <> pg_backend_pid()"
        )
        cur.execute(
            "SELECT nspname FROM pg_namespace WHERE nspname NOT LIKE 'pg\\_%'"
            " AND nspname <> 'information_schema'"
        )
        drops = [self.q(row[0]) for row in cur.fetchall()]
        if drops:
            cur.execute(f"DROP SCHEMA {', '.join(drops)} CASCADE")
        self.schemas = list(schemas)
        self.session = []
        for schema in schemas:
            cur.execute(f"CREATE SCHEMA {self.q(schema)}")
        cur.close()

    def config(self, **extra):
        if self.session:
            extra.setdefault("session_sqls", list(self.session))
        return {
            "dialect": "postgres",
            "host": self.info["host"],
            "port": self.info["port"],
            "database": self.database,
            "username": self.info["username"],
            "password": "x",
            **extra,
        }

    def readonly_config(self):
        """An account that may read and create temporary tables, nothing else."""
        name = f"ro_{self.tag}"
        self.run(
            f"DO $$ BEGIN IF NOT EXISTS (SELECT 1 FROM pg_roles WHERE rolname = '{name}')"
            f" THEN CREATE ROLE {name} LOGIN; END IF; END $$"
        )
        for schema in self.schemas:
            self.run(
                f"GRANT USAGE ON SCHEMA {self.q(schema)} TO {name}",
                f"GRANT SELECT ON ALL TABLES IN SCHEMA {self.q(schema)} TO {name}",
            )
        return self.config(username=name)

    def tables(self):
        return self.rows(
            "SELECT n.nspname, c.relname FROM pg_class c JOIN pg_namespace n"
            " ON n.oid = c.relnamespace WHERE c.relkind IN ('r','p') AND"
            " n.nspname NOT LIKE 'pg\\_%' AND n.nspname <> 'information_schema'"
            " ORDER BY 1, 2"
        )

    def columns(self, schema, table):
        return [
            row[0]
            for row in self.rows(
                "SELECT column_name FROM information_schema.columns WHERE"
                f" table_schema={self.lit(schema)} AND table_name={self.lit(table)}"
                " ORDER BY ordinal_position"
            )
        ]

    def full_dump(self):
        result: Dict[str, Any] = {}
        result["#classes"] = self.rows(
            "SELECT n.nspname, c.relname, c.relkind::text FROM pg_class c JOIN pg_namespace n"
            " ON n.oid = c.relnamespace WHERE n.nspname NOT LIKE 'pg\\_%' AND"
            " n.nspname <> 'information_schema' ORDER BY 1, 2, 3"
        )
        result["#cons"] = self.rows(
            "SELECT n.nspname, conrelid::regclass::text, conname, pg_get_constraintdef(c.oid)"
            " FROM pg_constraint c JOIN pg_namespace n ON n.oid = c.connamespace"
            " WHERE n.nspname NOT LIKE 'pg\\_%' AND n.nspname <> 'information_schema'"
            " ORDER BY 1, 2, 3"
        )
        result["#seqs"] = self.rows(
            "SELECT schemaname, sequencename, last_value FROM pg_sequences ORDER BY 1, 2"
        )
        for schema, table in self.tables():
            result[f"{schema}.{table}"] = sorted(
                (row[0] for row in self.rows(
                    f"SELECT t::text FROM {self.qt(schema, table)} t")),
                key=repr,
            )
        return result


class MysqlEndpoint(Endpoint):
    dialect = "mysql"

    def __init__(self, info: Dict[str, Any], tag: str) -> None:
        super().__init__()
        self.info = info
        self.tag = tag
        self.username = f"u_{tag}"
        admin = self._admin_connect()
        cur = admin.cursor()
        cur.execute(f"DROP USER IF EXISTS '{self.username}'@'%'")
        cur.execute(f"CREATE USER '{self.username}'@'%' IDENTIFIED BY 'pw' REQUIRE NONE")
        # schema names are prefixed by the worker tag; underscores must be escaped
        pattern = f"{tag}_".replace("_", "\\_") + "%"
        cur.execute(f"GRANT SELECT ON performance_schema.* TO '{self.username}'@'%'")
        cur.execute(f"GRANT ALL ON `{pattern}`.* TO '{self.username}'@'%'")
        cur.close()
        admin.commit()
        admin.close()

    def _admin_connect(self):
        import pymysql  # pylint: disable=import-outside-toplevel

        return pymysql.connect(
            host=self.info["host"], port=self.info["port"],
            user=self.info["username"], password="", autocommit=True, charset="utf8mb4",
        )

    def _connect(self):
        conn = self._admin_connect()
        cur = conn.cursor()
        cur.execute("SET SESSION sql_mode=CONCAT(@@sql_mode, ',NO_AUTO_VALUE_ON_ZERO')")
        cur.close()
        return conn

    def reset(self, schemas):
        cur = self.conn.cursor()
        cur.execute("SHOW DATABASES")
        mine = [row[0] for row in cur.fetchall() if row[0].startswith(f"{self.tag}_")]
        cur.execute(
            f"SELECT id FROM information_schema.processlist WHERE user = '{self.username}'"
        )
        for (pid,) in cur.fetchall():
            try:
                cur.execute(f"KILL {pid}")
            except Exception:  # pylint: disable=broad-exception-caught
                pass
        cur.execute("SET SESSION foreign_key_checks=0")
        for name in mine:
            cur.execute(f"DROP DATABASE {self.q(name)}")
        cur.execute("SET SESSION foreign_key_checks=1")
        self.schemas = list(schemas)
        for schema in schemas:
            if not schema.startswith(f"{self.tag}_"):
                raise InfraError(f"mysql schema {schema!r} lacks the worker prefix")
            cur.execute(
                f"CREATE DATABASE {self.q(schema)} CHARACTER SET utf8mb4 COLLATE utf8mb4_bin"
            )
        cur.close()

    def config(self, **extra):
        return {
            "dialect": "mysql",
            "host": self.info["host"],
            "port": self.info["port"],
            "username": self.username,
            "password": "pw",
            **extra,
        }

    def readonly_config(self):
        """An account that may read and create temporary tables, nothing else."""
        name = f"r_{self.tag}"
        pattern = f"{self.tag}_".replace("_", "\\_") + "%"
        self.run(
            f"DROP USER IF EXISTS '{name}'@'%'",
            f"CREATE USER '{name}'@'%' IDENTIFIED BY 'pw' REQUIRE NONE",
            f"GRANT SELECT, CREATE TEMPORARY TABLES ON `{pattern}`.* TO '{name}'@'%'",
            f"GRANT SELECT ON performance_schema.* TO '{name}'@'%'",
        )
        return self.config(username=name)

    def tables(self):
        if not self.schemas:
            return []
        names = ", ".join(self.lit(s) for s in self.schemas)
        return self.rows(
            "SELECT table_schema, table_name FROM information_schema.tables WHERE"
            f" table_schema IN ({names}) AND table_type = 'BASE TABLE' ORDER BY 1, 2"
        )

    def columns(self, schema, table):
        return [
            row[0]
            for row in self.rows(
                "SELECT column_name FROM information_schema.columns WHERE"
                f" table_schema={self.lit(schema)} AND table_name={self.lit(table)}"
                " ORDER BY ordinal_position"
            )
        ]

    def full_dump(self):
        result: Dict[str, Any] = {}
        for schema in self.schemas:
            result[f"#{schema}"] = sorted(
                row[0] for row in self.rows(f"SHOW TABLES IN {self.q(schema)}")
            )
        for schema, table in self.tables():
            result[f"ddl {schema}.{table}"] = self.rows(
                f"SHOW CREATE TABLE {self.qt(schema, table)}"
            )
            result[f"{schema}.{table}"] = sorted(self.table(schema, table), key=repr)
        return result


class Bench:
    """The endpoints one worker may use; created lazily, removed by `close`."""

    def __init__(self, base: str, worker: int, servers: Optional[Dict[str, Any]]) -> None:
        self.base = tempfile.mkdtemp(prefix=f"w{worker}.", dir=base)
        self.worker = worker
        self.servers = servers or {}
        self.endpoints: Dict[Tuple[str, str], Endpoint] = {}

    def dialects(self) -> List[str]:
        return [d for d in DIALECTS if d == "sqlite" or d in self.servers]

    def get(self, dialect: str, role: str) -> Endpoint:
        key = (dialect, role)
        if key not in self.endpoints:
            tag = f"{role}{self.worker}"
            if dialect == "sqlite":
                self.endpoints[key] = SqliteEndpoint(self.base, tag)
            elif dialect == "postgres":
                self.endpoints[key] = PostgresEndpoint(self.servers["postgres"], tag)
            else:
                self.endpoints[key] = MysqlEndpoint(self.servers["mysql"], tag)
        return self.endpoints[key]

    def schema(self, dialect: str, role: str, name: str) -> str:
        """Schema name as used in this endpoint (mysql databases are server global)."""
        if dialect == "mysql":
            return f"{role}{self.worker}_{name}"
        return name

    def close(self) -> None:
        for endpoint in self.endpoints.values():
            endpoint.close()
        shutil.rmtree(self.base, ignore_errors=True)
