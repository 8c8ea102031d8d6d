"""Rendering in a scratch copy of the package (rendering writes files next to its sources).

`setup()` must be called before gym_anm is imported.  Servers listen on the loopback interface only; their start is
serialised between the worker processes, because choosing a free port and binding it are two steps.
"""
import atexit
import contextlib
import fcntl
import io
import json
import os
import shutil
import sys
import tempfile

from . import boot
from .core import HarnessError

_dir = []


def setup():
    if _dir:
        return _dir[0]
    if "gym_anm" in sys.modules:
        raise HarnessError("gym_anm was imported before the scratch copy was made")
    cwd = os.getcwd()
    d = tempfile.mkdtemp(prefix="rend_", dir=cwd if os.path.basename(cwd).startswith("verif_") else None)
    pid = os.getpid()

    def clean():
        if os.getpid() == pid:
            shutil.rmtree(d, ignore_errors=True)

    atexit.register(clean)
    shutil.copytree(os.path.join(boot.REPO, "gym_anm"), os.path.join(d, "gym_anm"), ignore=shutil.ignore_patterns("__pycache__", "logs"))
    sys.path.insert(0, d)
    os.environ["BROWSER"] = "/bin/true"
    import gym_anm

    if not os.path.abspath(gym_anm.__file__).startswith(d):
        raise HarnessError("gym_anm is not imported from the scratch copy")
    _dir.append(d)
    return d


def fresh(patches=()):
    """Forget gym_anm and import its rendering servers again, with third-party names replaced during the import."""
    for m in [m for m in sys.modules if m == "gym_anm" or m.startswith("gym_anm.")]:
        del sys.modules[m]
    saved = [(mod, name, getattr(mod, name)) for mod, name, _ in patches]
    try:
        for mod, name, value in patches:
            setattr(mod, name, value)
        import gym_anm  # noqa: F401
        from gym_anm.envs.anm6_env.rendering.py import servers
    finally:
        for mod, name, value in saved:
            setattr(mod, name, value)
    return servers


@contextlib.contextmanager
def start_lock():
    """Held while servers choose ports and start listening."""
    path = os.path.join(tempfile.gettempdir(), "verif_render_lock_%d" % os.getuid())
    with open(path, "w") as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        try:
            yield
        finally:
            fcntl.flock(f, fcntl.LOCK_UN)


def kill_children():
    import multiprocessing as mp

    for p in mp.active_children():
        p.kill()
        p.join(5)


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def strict(msg):
    """Parse strictly valid JSON (no NaN, no Infinity, no duplicate keys)."""

    def bad(x):
        raise ValueError("%s is not valid JSON" % x)

    def pairs(p):
        d = dict(p)
        if len(d) != len(p):
            raise ValueError("duplicate keys")
        return d

    return json.loads(msg, parse_constant=bad, object_pairs_hook=pairs)


class Viewer:
    """A visualization client on a real connection."""

    def __init__(self, address, timeout=10):
        import time
        from websocket import create_connection

        end = time.time() + timeout
        while True:
            try:
                self.ws = create_connection(address, timeout=timeout)
                break
            except (ConnectionRefusedError, ConnectionResetError):
                if time.time() > end:
                    raise
                time.sleep(0.01)
        self.got = []

    def until(self, marker):
        """Receive up to and excluding the message with this marker."""
        new = []
        while True:
            m = self.ws.recv()
            try:
                if json.loads(m).get("marker") == marker:
                    break
            except (ValueError, AttributeError):
                pass
            new.append(m)
        self.got += new
        return new

    def send(self, msg):
        self.ws.send(msg)

    def close(self, abrupt=False):
        import socket
        import struct

        if abrupt:
            self.ws.sock.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            self.ws.sock.close()
            self.ws.sock = None
        else:
            self.ws.close()


def marker(k):
    return json.dumps({"messageLabel": "update", "marker": k})
