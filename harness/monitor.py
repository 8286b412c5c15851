"""Watches what the subject does with its database connections.

Listens to SQLAlchemy's engine events (class wide), tells source from destination by the
connection's URL and hands every event to a callback.
"""

from __future__ import annotations

from typing import Any, Callable, Dict, List, Optional

import sqlalchemy as sa


def url_id(url) -> tuple:
    if url.get_backend_name() == "sqlite":
        return ("sqlite", url.database)
    return (url.get_backend_name(), url.port, url.username, url.database if url.get_backend_name() != "mysql" else None)


def cfg_id(cfg: Dict[str, Any]) -> tuple:
    if cfg["dialect"] == "sqlite":
        return ("sqlite", cfg["database"])
    name = {"postgres": "postgresql"}.get(cfg["dialect"], cfg["dialect"])
    return (name, cfg["port"], cfg["username"], cfg.get("database") if name != "mysql" else None)


class Monitor:
    """Context manager.  callback(kind, side, conn, statement, parameters)"""

    KINDS = ("connect", "execute", "executed", "commit", "rollback", "begin")

    def __init__(self, source: Dict[str, Any], dest: Optional[Dict[str, Any]], callback: Callable) -> None:
        self.ids = {cfg_id(source): "source"}
        if dest is not None:
            self.ids[cfg_id(dest)] = "dest"
        self.callback = callback
        self.busy = False
        self.unknown: List[Any] = []
        self.events = 0

    def side(self, conn) -> str:
        ident = url_id(conn.engine.url)
        side = self.ids.get(ident)
        if side is None:
            self.unknown.append(ident)
            return "unknown"
        return side

    def _fire(self, kind, conn, statement=None, parameters=None):
        if self.busy:
            return
        self.busy = True
        try:
            self.events += 1
            self.callback(kind, self.side(conn), conn, statement, parameters)
        finally:
            self.busy = False

    def _before(self, conn, cursor, statement, parameters, context, executemany):
        self._fire("execute", conn, statement, parameters)

    def _after(self, conn, cursor, statement, parameters, context, executemany):
        self._fire("executed", conn, statement, parameters)

    def _commit(self, conn):
        self._fire("commit", conn)

    def _rollback(self, conn):
        self._fire("rollback", conn)

    def _begin(self, conn):
        self._fire("begin", conn)

    def _list(self):
        return [
            ("before_cursor_execute", self._before), ("after_cursor_execute", self._after),
            ("commit", self._commit), ("rollback", self._rollback), ("begin", self._begin),
        ]

    def __enter__(self):
        for name, func in self._list():
            sa.event.listen(sa.engine.Engine, name, func)
        return self

    def __exit__(self, *_exc):
        for name, func in self._list():
            sa.event.remove(sa.engine.Engine, name, func)
        return False
