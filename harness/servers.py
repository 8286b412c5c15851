"""Start throw-away PostgreSQL / MySQL servers for one check run.

Both servers refuse to run as root, so they run as the unprivileged system user the
repository's own tests use (or `nobody`).  Everything lives below one scratch directory
which is removed again; servers are killed when the check ends (also by PDEATHSIG).
"""

from __future__ import annotations

import ctypes
import os
import pwd
import shutil
import signal
import socket
import subprocess
import tempfile
import threading
import time

PGBIN = "/usr/lib/postgresql/16/bin"
MYSQLD = "/usr/sbin/mysqld"


def _free_port() -> int:
    with socket.socket() as sock:
        sock.bind(("127.0.0.1", 0))
        return sock.getsockname()[1]


def _server_user():
    for name in ("subsetter-test", "nobody"):
        try:
            return pwd.getpwnam(name)
        except KeyError:
            continue
    raise RuntimeError("no unprivileged user available")


_LIBC = ctypes.CDLL("libc.so.6", use_errno=True)


def _demote(user):
    def _inner():
        if os.getuid() == 0:
            os.setgroups([])
            os.setgid(user.pw_gid)
            os.setuid(user.pw_uid)
        # PR_SET_PDEATHSIG: die with the check process, whatever happens to it
        _LIBC.prctl(1, signal.SIGKILL, 0, 0, 0)

    return _inner


class Servers:
    """Lazily started servers, all below a single scratch directory."""

    def __init__(self, tls: bool = False) -> None:
        self.tls = tls
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
        try:
            if base and shutil.disk_usage(base).free < 3 << 30:
                base = None
        except OSError:
            base = None
        self.dir = tempfile.mkdtemp(prefix="sbst-srv.", dir=base)
        os.chmod(self.dir, 0o755)
        self.user = _server_user()
        if tls:
            self._certificates()
        self.procs = []
        self.info = {}
        self.errors = {}

    def _certificates(self) -> None:
        """Two authorities; the first one signs a server called localhost and a client."""
        self.certs = os.path.join(self.dir, "certs")
        os.mkdir(self.certs)
        os.chmod(self.certs, 0o755)

        def openssl(*args: str) -> None:
            subprocess.run(["openssl", *args], cwd=self.certs, check=True, capture_output=True, timeout=60, stdin=subprocess.DEVNULL)

        new = ["-newkey", "ec", "-pkeyopt", "ec_paramgen_curve:prime256v1", "-nodes"]
        for name in ("ca", "other"):
            openssl("req", "-x509", *new, "-keyout", f"{name}.key", "-out", f"{name}.crt", "-days", "3650", "-subj", f"/CN=sbst {name}",
                    "-addext", "keyUsage=critical,keyCertSign,cRLSign")
        for name, subject, ext in (("server", "localhost", "subjectAltName=DNS:localhost\n"), ("client", "certuser", "basicConstraints=CA:FALSE\n")):
            with open(os.path.join(self.certs, f"{name}.ext"), "w", encoding="utf-8") as fh:
                fh.write(ext)
            openssl("req", *new, "-keyout", f"{name}.key", "-out", f"{name}.csr", "-subj", f"/CN={subject}")
            openssl("x509", "-req", "-in", f"{name}.csr", "-CA", "ca.crt", "-CAkey", "ca.key", "-CAcreateserial", "-out", f"{name}.crt",
                    "-days", "3650", "-extfile", f"{name}.ext")
        for name in os.listdir(self.certs):
            path = os.path.join(self.certs, name)
            os.chmod(path, 0o600 if name.endswith(".key") else 0o644)
            if name == "server.key" and os.getuid() == 0:
                os.chown(path, self.user.pw_uid, self.user.pw_gid)

    def _mkdir(self, name: str) -> str:
        path = os.path.join(self.dir, name)
        os.mkdir(path)
        os.chmod(path, 0o700)
        if os.getuid() == 0:
            os.chown(path, self.user.pw_uid, self.user.pw_gid)
        return path

    def _env(self, home: str):
        return {
            "HOME": home,
            "TMPDIR": home,
            "LANG": "C.UTF-8",
            "TZ": "UTC",
            "PATH": "/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin",
        }

    def _start_postgres(self, tag: str):
        home = self._mkdir(f"pg-{tag}")
        data = os.path.join(home, "data")
        kwargs = dict(
            cwd=home,
            env=self._env(home),
            preexec_fn=_demote(self.user),
            stdin=subprocess.DEVNULL,
        )
        with open(os.path.join(self.dir, f"pg-{tag}.log"), "wb") as log:
            subprocess.run(
                [f"{PGBIN}/initdb", "-D", data, "-U", "postgres", "-A", "trust",
                 "-N", "-E", "UTF8", "--locale=C"],
                check=True, stdout=log, stderr=log, timeout=180, **kwargs,
            )
            more = []
            if self.tls:
                more = ["-c", "ssl=on"]
                for opt, name in (("cert", "server.crt"), ("key", "server.key"), ("ca", "ca.crt")):
                    more += ["-c", f"ssl_{opt}_file={os.path.join(self.certs, name)}"]
                hba = os.path.join(data, "pg_hba.conf")
                with open(hba, encoding="utf-8") as fh:
                    text = fh.read()
                with open(hba, "w", encoding="utf-8") as fh:
                    fh.write("hostssl all certuser all cert\nhostnossl all certuser all reject\nhostnossl all tlsuser all reject\n" + text)
            port = _free_port()
            proc = subprocess.Popen(
                [f"{PGBIN}/postgres", "-D", data, "-p", str(port), "-k", home, "-F",
                 "-c", "listen_addresses=127.0.0.1", "-c", "synchronous_commit=off",
                 "-c", "full_page_writes=off", "-c", "autovacuum=off",
                 "-c", "max_connections=200", "-c", "shared_buffers=64MB",
                 "-c", "timezone=UTC", *more],
                stdout=log, stderr=log, **kwargs,
            )
        self.procs.append(proc)
        import psycopg2  # pylint: disable=import-outside-toplevel

        self._wait(
            proc,
            lambda: psycopg2.connect(
                host="127.0.0.1", port=port, user="postgres", dbname="postgres"
            ).close(),
        )
        return {"host": "127.0.0.1", "port": port, "username": "postgres", "password": "", "unix": home,
                "certs": self.certs if self.tls else None}

    def _start_mysql(self, tag: str):
        home = self._mkdir(f"my-{tag}")
        data = os.path.join(home, "data")
        kwargs = dict(
            cwd=home,
            env=self._env(home),
            preexec_fn=_demote(self.user),
            stdin=subprocess.DEVNULL,
        )
        common = [
            MYSQLD, "--no-defaults", f"--datadir={data}", f"--tmpdir={home}",
            "--skip-log-bin", "--innodb-flush-log-at-trx-commit=0",
            "--innodb-doublewrite=0", "--innodb-buffer-pool-size=128M",
            "--innodb-redo-log-capacity=64M", "--performance-schema=OFF",
            f"--secure-file-priv={home}",
        ]
        if self.tls:
            common += [f"--ssl-{opt}={os.path.join(self.certs, name)}" for opt, name in
                       (("ca", "ca.crt"), ("cert", "server.crt"), ("key", "server.key"))]
        with open(os.path.join(self.dir, f"my-{tag}.log"), "wb") as log:
            subprocess.run(common + ["--initialize-insecure"], check=True,
                           stdout=log, stderr=log, timeout=300, **kwargs)
            port = _free_port()
            proc = subprocess.Popen(
                common + [
                    f"--port={port}", "--bind-address=127.0.0.1", "--mysqlx=OFF",
                    f"--socket={home}/m.sock", f"--pid-file={home}/m.pid",
                    "--max-connections=300", "--default-time-zone=+00:00",
                ],
                stdout=log, stderr=log, **kwargs,
            )
        self.procs.append(proc)
        import pymysql  # pylint: disable=import-outside-toplevel

        self._wait(
            proc,
            lambda: pymysql.connect(
                host="127.0.0.1", port=port, user="root", password=""
            ).close(),
        )
        return {"host": "127.0.0.1", "port": port, "username": "root", "password": "", "certs": self.certs if self.tls else None}

    @staticmethod
    def _wait(proc, probe, timeout: float = 120.0) -> None:
        deadline = time.monotonic() + timeout
        while True:
            if proc.poll() is not None:
                raise RuntimeError(f"server exited with {proc.returncode}")
            try:
                probe()
                return
            except Exception:  # pylint: disable=broad-exception-caught
                if time.monotonic() > deadline:
                    raise
                time.sleep(0.1)

    def start(self, kinds) -> None:
        """Start the given kinds ('postgres' / 'mysql') concurrently; retry once each."""

        def _one(kind):
            starter = self._start_postgres if kind == "postgres" else self._start_mysql
            for attempt in range(3):
                try:
                    self.info[kind] = starter(f"{attempt}")
                    self.errors.pop(kind, None)
                    return
                except Exception as exc:  # pylint: disable=broad-exception-caught
                    self.errors[kind] = f"{type(exc).__name__}: {exc}"

        # PDEATHSIG is tied to the *thread* that forked, so fork from long-lived threads.
        self._threads_done = threading.Event()
        started = threading.Semaphore(0)

        def _runner(kind):
            try:
                _one(kind)
            finally:
                started.release()
            self._threads_done.wait()

        for kind in kinds:
            threading.Thread(target=_runner, args=(kind,), daemon=True).start()
        for _ in kinds:
            started.acquire()

    def stop(self) -> None:
        for proc in self.procs:
            if proc.poll() is None:
                # postgres: SIGQUIT = immediate shutdown (frees its shared memory);
                # mysqld: nothing worth saving
                proc.send_signal(
                    signal.SIGQUIT if "postgres" in proc.args[0] else signal.SIGKILL
                )
        for proc in self.procs:
            try:
                proc.wait(timeout=10)
            except subprocess.TimeoutExpired:
                proc.kill()
                proc.wait(timeout=10)
        if getattr(self, "_threads_done", None):
            self._threads_done.set()
        # SIGKILLed postmasters leave children that exit by themselves
        for _ in range(20):
            shutil.rmtree(self.dir, ignore_errors=True)
            if not os.path.exists(self.dir):
                break
            time.sleep(0.2)


if __name__ == "__main__":
    t0 = time.time()
    servers = Servers()
    servers.start(["postgres", "mysql"])
    print(servers.info, servers.errors, round(time.time() - t0, 1))
    if os.environ.get("HOLD"):
        try:
            time.sleep(float(os.environ["HOLD"]))
        except KeyboardInterrupt:
            pass
    servers.stop()
