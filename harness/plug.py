"""Filter plugins used by the checks (imported by the code under test by module name)."""


class Suffix:
    def __init__(self, suffix):
        self.suffix = suffix

    def __call__(self, values):
        return [None if v is None else f"{v}{self.suffix}" for v in values]


class Swap:
    def __call__(self, values):
        return values[::-1]


class AddInt:
    def __init__(self, num):
        self.num = num

    def __call__(self, values):
        return (None if v is None else v + self.num for v in values)


class Fail:
    """Stops the run at the given call."""

    def __init__(self, after):
        self.left = after

    def __call__(self, values):
        self.left -= 1
        if self.left < 0:
            raise RuntimeError("plugin fails")
        return list(values)
