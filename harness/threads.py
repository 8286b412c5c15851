"""Runs functions in threads and decides which of them may go on at every statement.

Switches happen right before and right after statements reach a driver.  A thread that waits for
something else than its turn (a lock) does not stop the others for longer than a moment.
"""

from __future__ import annotations

import random
import threading
from typing import Any, Callable, Dict, List

import sqlalchemy as sa


class Interleaver:
    def __init__(self, seed: Any, patience: float = 0.4) -> None:
        self.rng = random.Random(seed)
        self.patience = patience
        self.cond = threading.Condition()
        self.threads: Dict[int, int] = {}  # thread ident -> number
        self.waiting: List[int] = []
        self.active = 0
        self.turn = -1
        self.running = 0  # threads between two steps
        self.trace: List[int] = []
        self.stuck = 0
        self.sticky = self.rng.choice([0.0, 0.3, 0.8])
        self.last = -1

    def _choose(self) -> None:
        """Hand the turn on once nobody runs (lock held)."""
        if self.running <= 0 and self.waiting and self.turn < 0:
            if self.last in self.waiting and self.rng.random() < self.sticky:
                self.turn = self.last
            else:
                self.turn = self.rng.choice(sorted(self.waiting))
            self.cond.notify_all()

    def step(self) -> None:
        num = self.threads.get(threading.get_ident())
        if num is None:
            return
        with self.cond:
            self.running -= 1
            self.waiting.append(num)
            self._choose()
            while self.turn != num:
                if not self.cond.wait(self.patience) and self.turn < 0:
                    # whoever has the turn is blocked elsewhere
                    self.running = 0
                    self.stuck += 1
                    self._choose()
            self.turn = -1
            self.waiting.remove(num)
            self.running = max(self.running, 0) + 1
            self.last = num
            self.trace.append(num)

    def _body(self, num: int, func: Callable[[], Any], results: List[Any], gate: threading.Barrier) -> None:
        with self.cond:
            self.threads[threading.get_ident()] = num
            self.running += 1
        gate.wait(30)
        try:
            self.step()
            results[num] = ("ok", func())
        except BaseException as exc:  # pylint: disable=broad-exception-caught
            results[num] = ("error", exc)
        finally:
            with self.cond:
                self.threads.pop(threading.get_ident(), None)
                self.running -= 1
                self._choose()

    def run(self, funcs: List[Callable[[], Any]], timeout: float = 90) -> List[Any]:
        results: List[Any] = [("hangs", None)] * len(funcs)
        gate = threading.Barrier(len(funcs))
        threads = [threading.Thread(target=self._body, args=(i, f, results, gate), daemon=True) for i, f in enumerate(funcs)]

        def before(*_args):
            self.step()

        names = ("before_cursor_execute", "after_cursor_execute")
        for name in names:
            sa.event.listen(sa.engine.Engine, name, before)
        try:
            for thread in threads:
                thread.start()
            for thread in threads:
                thread.join(timeout)
        finally:
            for name in names:
                sa.event.remove(sa.engine.Engine, name, before)
        return results

    def switches(self) -> int:
        return sum(a != b for a, b in zip(self.trace, self.trace[1:]))
