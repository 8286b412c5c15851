"""Columns of further types: declarations, values, and one common reading of them."""

from __future__ import annotations

import datetime
import decimal
import json
import uuid
from typing import Any

D = decimal.Decimal

SQL = {
    "float": {"sqlite": "DOUBLE PRECISION", "postgres": "DOUBLE PRECISION", "mysql": "DOUBLE"},
    "dec": {"sqlite": "DECIMAL(14, 4)", "postgres": "NUMERIC(14, 4)", "mysql": "DECIMAL(14, 4)"},
    "bool": {"sqlite": "BOOLEAN", "postgres": "BOOLEAN", "mysql": "BOOLEAN"},
    "date": {"sqlite": "DATE", "postgres": "DATE", "mysql": "DATE"},
    "ts": {"sqlite": "DATETIME", "postgres": "TIMESTAMP", "mysql": "DATETIME(6)"},
    "time": {"sqlite": "TIME", "postgres": "TIME", "mysql": "TIME(6)"},
    "bytes": {"sqlite": "BLOB", "postgres": "BYTEA", "mysql": "VARBINARY(300)"},
    "long": {"sqlite": "TEXT", "postgres": "TEXT", "mysql": "TEXT"},
    "small": {"sqlite": "SMALLINT", "postgres": "SMALLINT", "mysql": "SMALLINT"},
    "i64": {"sqlite": "BIGINT", "postgres": "BIGINT", "mysql": "BIGINT"},
    "json": {"sqlite": "JSON", "postgres": "JSONB", "mysql": "JSON"},
    # one kind of database only
    "pgjson": {"postgres": "JSON"},
    "bigdec": {"postgres": "NUMERIC(40, 10)", "mysql": "DECIMAL(40, 10)"},
    "uuid": {"postgres": "UUID"},
    "tstz": {"postgres": "TIMESTAMPTZ"},
    "arr": {"postgres": "INTEGER[]"},
    "tarr": {"postgres": "TEXT[]"},
    "interval": {"postgres": "INTERVAL"},
    "inet": {"postgres": "INET"},
    "char": {"postgres": "CHAR(5)"},
    "u64": {"mysql": "BIGINT UNSIGNED"},
    "enum": {"mysql": "ENUM('a', 'b c', 'ü')"},
    "year": {"mysql": "YEAR"},
    "tiny": {"mysql": "TINYINT"},
}
COMMON = [k for k, v in SQL.items() if len(v) == 3]
KINDS = set(SQL)

TEXTS = [
    "", " ", "a\nb", "tab\there", "ünïçødé Größe", "😀 emoji", "a'b\"c`d", "back\\slash\\n", "%s %(x)s %%", ":x \\:y",
    "NULL", "null", "None", "trailing  ", "  leading", "\r\n", "{}", "[1]", "0", "1e5", "true", "--x", "; DROP TABLE x",
    "\u2028sep", "x" * 200, "日本語テキスト", "é",
]


def kinds_for(*dialects: str):
    return [k for k, v in SQL.items() if all(d in v for d in dialects) and (len(v) == 3 or len(set(dialects)) == 1)]


def value(rng, kind: str) -> Any:
    if kind == "float":
        return rng.choice([0.0, 1.5, -2.25, 0.1, 1 / 3, 1e300, -1e-300, 123456789.125, rng.uniform(-1e6, 1e6)])
    if kind == "dec":
        return D(rng.choice(["0.0000", "1.5000", "-12.3400", "99999.9999", "0.0001", f"{rng.randint(-10**8, 10**8)}.{rng.randint(0, 9999):04d}"]))
    if kind == "bigdec":
        return D(f"{rng.randint(-10**29, 10**29)}.{rng.randint(0, 10**10 - 1):010d}")
    if kind == "bool":
        return rng.random() < 0.5
    if kind == "date":
        return datetime.date(rng.choice([1000, 1582, 1969, 1970, 2000, 2024, 9999]), rng.randint(1, 12), rng.randint(1, 28))
    if kind in ("ts", "tstz"):
        stamp = datetime.datetime(
            rng.choice([1000, 1969, 1970, 2000, 2024, 9999]) if kind == "ts" else rng.choice([1969, 1970, 2000, 2024]),
            rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59),
            rng.choice([0, 0, 1, 999999, 500000, rng.randint(0, 999999)]))
        return stamp.replace(tzinfo=datetime.timezone.utc) if kind == "tstz" else stamp
    if kind == "time":
        return datetime.time(rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59), rng.choice([0, 0, 1, 999999]))
    if kind == "bytes":
        return rng.choice([b"", b"\x00", b"\xff\xfe\x00'\"\\", bytes(range(256)), rng.randbytes(rng.randint(1, 20))])
    if kind == "long":
        return rng.choice(TEXTS) if rng.random() < 0.9 else "y" * rng.choice([1000, 5000])
    if kind == "small":
        return rng.choice([0, 1, -1, 32767, -32768])
    if kind == "i64":
        return rng.choice([0, -1, 2**31, 2**53 + 1, 2**63 - 1, -2**63])
    if kind == "u64":
        return rng.choice([0, 2**63, 2**64 - 1, 7])
    if kind in ("json", "pgjson"):
        return rng.choice([{}, {"a": 1, "b": [1, 2.5, None, "x'y\\n"]}, [], [1], "text", "", 0, 12, True, {"ü": {"n": None}}])
    if kind == "uuid":
        return str(uuid.UUID(int=rng.getrandbits(128)))
    if kind == "arr":
        return rng.choice([[], [1], [3, -2, 3], [None, 5]])
    if kind == "tarr":
        return rng.choice([[], ["a"], ["a,b", 'q"t', "", "NULL", "back\\s"]])
    if kind == "interval":
        return datetime.timedelta(days=rng.randint(-5, 400), seconds=rng.randint(0, 86399), microseconds=rng.choice([0, 1]))
    if kind == "inet":
        return rng.choice(["10.0.0.1", "192.168.1.0/24", "::1"])
    if kind == "char":
        return rng.choice(["abcde", "12345", "üöäxy"])
    if kind == "enum":
        return rng.choice(["a", "b c", "ü"])
    if kind == "year":
        return rng.choice([1901, 2000, 2024, 2155])
    if kind == "tiny":
        return rng.choice([0, 1, 2, -128, 127])
    raise AssertionError(kind)


def to_sql(dialect: str, kind: str, val: Any) -> Any:
    """Something `dbio.literal` can write for this value."""
    if val is None:
        return None
    if kind in ("json", "pgjson"):
        return json.dumps(val, ensure_ascii=False)
    if kind == "arr":
        return "{" + ",".join("NULL" if v is None else str(v) for v in val) + "}"
    if kind == "tarr":
        return "{" + ",".join('"' + v.replace("\\", "\\\\").replace('"', '\\"') + '"' for v in val) + "}"
    if kind == "interval":
        return f"{val.days} days {val.seconds}.{val.microseconds:06d} seconds"
    if kind == "bool":
        return val
    if kind == "dec" and dialect == "sqlite":
        return float(val)
    if kind in ("ts", "time") and dialect == "sqlite":
        return val.isoformat(sep=" ") if kind == "ts" else val.isoformat()
    return val


def canon(kind: str, val: Any) -> Any:
    """What a driver returned (or was generated), read the same way for every database."""
    if val is None:
        return None
    if kind in ("int", "bigint", "i64", "small", "u64", "year", "tiny"):
        if isinstance(val, bool) or not isinstance(val, int):
            return ("odd", repr(val))
        return val
    if kind == "float":
        return float(val)
    if kind in ("dec", "bigdec"):
        places = D("0.0001") if kind == "dec" else D("0.0000000001")
        return D(str(val)).quantize(places, context=decimal.Context(prec=60))
    if kind == "bool":
        return bool(val) if val in (0, 1) else ("odd", repr(val))
    if kind == "date":
        return val if type(val) is datetime.date else datetime.date.fromisoformat(str(val))
    if kind == "ts":
        return val if isinstance(val, datetime.datetime) else datetime.datetime.fromisoformat(str(val))
    if kind == "tstz":
        return val.astimezone(datetime.timezone.utc)
    if kind == "time":
        if isinstance(val, datetime.timedelta):
            return (datetime.datetime(2000, 1, 1) + val).time()
        return val if isinstance(val, datetime.time) else datetime.time.fromisoformat(str(val))
    if kind == "bytes":
        return bytes(val)
    if kind in ("json", "pgjson"):
        return val  # see json_text
    if kind in ("arr", "tarr"):
        return tuple(val)
    return val


def json_text(dialect: str, val: Any) -> Any:
    """JSON columns: postgres' driver parses them, the others return text."""
    if val is None:
        return None
    if dialect == "postgres" or isinstance(val, (int, float)):
        # (sqlite stores numbers in JSON columns as numbers)
        return json.dumps(val, sort_keys=True)
    return json.dumps(json.loads(val), sort_keys=True)
