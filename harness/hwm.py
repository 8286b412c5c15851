"""Runs the subject's command line and notes the peak memory of this process (usage: hwm.py FILE ARGS...)."""
import sys

out = sys.argv[1]
sys.argv = ["subsetter", *sys.argv[2:]]
code = 0
try:
    import subsetter.__main__ as prog

    prog.main()
except SystemExit as exc:
    code = exc.code if isinstance(exc.code, int) else 0 if exc.code is None else 1
with open("/proc/self/status", encoding="ascii") as fh:
    peak = [line.split()[1] for line in fh if line.startswith("VmHWM")][0]
with open(out, "w", encoding="ascii") as fh:
    fh.write(peak)
sys.exit(code)
