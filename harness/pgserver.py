"""A private PostgreSQL server in a scratch directory."""
import contextlib
import os
import shutil
import socket
import subprocess
import tempfile
import time


class PGServer:
    def __init__(self, scratch):
        self.available = False
        self.proc = None
        self.n = 0
        bindir = "/opt/vp/pgbin"
        if not os.path.exists(bindir + "/initdb") or shutil.which("createdb") is None:
            return
        # the postgres user has to be able to reach the directory
        self.dir = tempfile.mkdtemp(prefix="vp-pg-", dir="/tmp")
        data = self.dir
        env = dict(os.environ, PATH="/opt/vp/pgbin:/usr/lib/postgresql/16/bin:" + os.environ["PATH"])
        self.env = env
        try:
            subprocess.run([bindir + "/initdb", data], env=env, check=True,
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
            with open(data + "/postgresql.conf", "a") as f:
                f.write("\nfsync = off\nfull_page_writes = off\nsynchronous_commit = off\n"
                        f"unix_socket_directories = '{data}'\nmax_connections = 100\n")
            for _ in range(3):
                with contextlib.closing(socket.socket()) as s:
                    s.bind(("localhost", 0))
                    self.port = s.getsockname()[1]
                self.proc = subprocess.Popen(
                    [bindir + "/postgres", "-D", data, "-h", "localhost", "-p", str(self.port)],
                    env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                end = time.time() + 30
                while time.time() < end and self.proc.poll() is None:
                    with contextlib.closing(socket.socket()) as s:
                        if s.connect_ex(("localhost", self.port)) == 0:
                            self.available = True
                            return
                    time.sleep(0.1)
                self.proc.kill()
        except Exception:  # noqa
            self.stop()

    def database(self, basedir, template=None):
        if not hasattr(self, "dbs"):
            self.dbs = {}
        if basedir not in self.dbs:
            self.n += 1
            db = f"d{self.n}"
            cmd = ["createdb", "-h", "localhost", "-p", str(self.port), "-U", "root", db]
            if template:
                cmd[1:1] = ["-T", template]
            for i in range(20):
                # the template may still have a connection which is going away
                r = subprocess.run(cmd, env=self.env, timeout=60, stderr=subprocess.DEVNULL)
                if r.returncode == 0:
                    break
                time.sleep(0.1)
            else:
                raise RuntimeError(f"createdb failed: {cmd}")
            self.dbs[basedir] = db
        return dict(host="localhost", port=self.port, user="root", database=self.dbs[basedir])

    def drop(self, basedir):
        subprocess.run(["dropdb", "-f", "-h", "localhost", "-p", str(self.port), "-U", "root", self.dbs.pop(basedir)],
                       env=self.env, timeout=60, stderr=subprocess.DEVNULL)

    def stop(self):
        if self.proc is not None:
            self.proc.terminate()
            with contextlib.suppress(Exception):
                self.proc.wait(20)
        if getattr(self, "dir", None):
            shutil.rmtree(self.dir, ignore_errors=True)
