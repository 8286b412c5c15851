#!/bin/bash
# Nothing to compile: verify that everything the checks need is present and works.
set -e
cd "$(dirname "$0")"
export PYTHONDONTWRITEBYTECODE=1
/opt/venv/bin/python - <<'PY'
import sys
sys.path.insert(0, "harness")
import sqlite3, psycopg2, pymysql, sqlalchemy, pydantic, yaml, faker  # noqa: F401
import servers
s = servers.Servers()
try:
    s.start(["postgres", "mysql"])
    print("servers:", sorted(s.info), s.errors)
finally:
    s.stop()
PY
mkdir -p evidence replays
