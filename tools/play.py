"""Ad-hoc experiments: `from play import *` starts servers and gives ctx + endpoints."""
import atexit, os, random, sys, tempfile, shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "harness"))
os.environ.setdefault("TZ", "UTC")
import runner, servers, dbio, subj, scen, world  # noqa
from runner import Ctx
srv = servers.Servers()
srv.start(os.environ.get("PLAY", "postgres mysql").split())
base = tempfile.mkdtemp(prefix="sbst-play.", dir="/dev/shm")
bench = dbio.Bench(base, 0, srv.info)
ctx = Ctx(random.Random(1), bench, 0, "quick")
def _end():
    bench.close(); srv.stop(); shutil.rmtree(base, ignore_errors=True)
atexit.register(_end)
