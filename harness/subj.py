"""The only place that imports the code under test."""

from __future__ import annotations

import os
import sys
import threading
import warnings
from typing import Any, Dict, List, Optional

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)
warnings.simplefilter("ignore")

import logging  # noqa: E402

logging.getLogger("subsetter").setLevel(logging.CRITICAL)
logging.getLogger("faker").setLevel(logging.CRITICAL)
logging.getLogger("sqlalchemy.pool").setLevel(logging.CRITICAL + 1)

import sqlalchemy as sa  # noqa: E402

import subsetter  # noqa: E402

if not os.path.realpath(subsetter.__file__ or subsetter.__path__[0]).startswith(
    os.path.realpath(REPO)
):
    raise RuntimeError(f"imported {subsetter.__file__}, expected code below {REPO}")

from subsetter.common import DatabaseConfig  # noqa: E402
from subsetter.config_model import PlannerConfig, SamplerConfig, SubsetterConfig  # noqa: E402
from subsetter.plan_model import SubsetPlan  # noqa: E402
from subsetter.planner import Planner  # noqa: E402
from subsetter.sampler import Sampler  # noqa: E402

_OPEN: List[Any] = []


@sa.event.listens_for(sa.pool.Pool, "connect")
def _track(dbapi_connection, _record):
    _OPEN.append(dbapi_connection)


def close_all() -> int:
    """Close every driver connection the subject left open (end of a case)."""
    count = len(_OPEN)
    while _OPEN:
        conn = _OPEN.pop()
        try:
            conn.close()
        except Exception:  # pylint: disable=broad-exception-caught
            pass
    return count


def plan(source: Dict[str, Any], planner: Dict[str, Any]) -> SubsetPlan:
    return Planner(
        DatabaseConfig.model_validate(source), PlannerConfig.model_validate(planner)
    ).plan()


def dump_plan(plan_obj: SubsetPlan) -> Dict[str, Any]:
    return plan_obj.model_dump(exclude_unset=True, by_alias=True)


def load_plan(data: Dict[str, Any]) -> SubsetPlan:
    return SubsetPlan.model_validate(data)


def sample(
    source: Dict[str, Any],
    sampler: Dict[str, Any],
    plan_obj: SubsetPlan,
    *,
    truncate: bool = False,
    create: bool = False,
) -> None:
    Sampler(
        DatabaseConfig.model_validate(source), SamplerConfig.model_validate(sampler)
    ).sample(plan_obj, truncate=truncate, create=create)
