"""Crash and fault injection around real file operations."""
import builtins
import os
import sys
import threading

_state = threading.local()
_hook = {"fn": None}


def _audit(event, args):
    fn = _hook["fn"]
    if fn is not None:
        fn(event, args)


sys.addaudithook(_audit)

WATCH = {
    "open",
    "os.rename",
    "os.remove",
    "os.mkdir",
    "os.rmdir",
    "os.truncate",
    "os.link",
    "os.symlink",
    "shutil.copyfile",
    "shutil.move",
    "shutil.rmtree",
    "shutil.copytree",
}


def touches(root, event, args):
    """a mutating file operation below root?"""
    if event not in WATCH:
        return False
    for a in args[:2]:
        if isinstance(a, bytes):
            a = a.decode(errors="replace")
        if isinstance(a, str) and os.path.abspath(a).startswith(root):
            if event == "open":
                mode = args[1] if len(args) > 1 else None
                flags = args[2] if len(args) > 2 else 0
                m = mode if isinstance(mode, str) else ""
                if any(ch in m for ch in "wax+"):
                    return True
                if isinstance(flags, int) and flags & (
                    os.O_WRONLY | os.O_RDWR | os.O_CREAT
                ):
                    return True
                return False
            return True
    return False


def run_counting(root, fn):
    """run fn() and count mutating operations below root (incl. tensor files)"""
    n = [0]
    lock = threading.Lock()

    def hook(event, args):
        if touches(root, event, args):
            with lock:
                n[0] += 1

    with tensor_file_hook(root, lambda p: n.__setitem__(0, n[0] + 2)):
        _hook["fn"] = hook
        try:
            fn()
        finally:
            _hook["fn"] = None
    return n[0]


class tensor_file_hook:
    """calls cb(path) before safetensors / torch write a file below root"""

    def __init__(self, root, cb, after=None):
        self.root, self.cb = root, cb

    def __enter__(self):
        import safetensors.torch as st
        import torch

        self.st, self.ts = st, torch.serialization
        self.o1, self.o2 = st.serialize_file, self.ts._open_zipfile_writer
        root, cb, o1, o2 = self.root, self.cb, self.o1, self.o2

        def serialize_file(tensors, filename, *a, **k):
            if os.path.abspath(str(filename)).startswith(root):
                cb(str(filename))
            return o1(tensors, filename, *a, **k)

        def writer(f, *a, **k):
            if isinstance(f, (str, os.PathLike)) and os.path.abspath(
                str(f)
            ).startswith(root):
                cb(str(f))
            return o2(f, *a, **k)

        st.serialize_file = serialize_file
        self.ts._open_zipfile_writer = writer
        return self

    def __exit__(self, *exc):
        self.st.serialize_file, self.ts._open_zipfile_writer = self.o1, self.o2


def crash_at(root, k, fn):
    """Fork; the child runs fn() and dies at the k-th mutating operation below
    root.  Returns True if the child died there, False if it ran to the end."""
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        n = [0]
        lock = threading.Lock()

        def tick(path=None, tear=False):
            with lock:
                n[0] += 1
                if n[0] == k:
                    if tear and path:
                        fd = os.open(path, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
                        os.write(fd, b"\x08\x00\x00\x00")
                        os.close(fd)
                    os._exit(77)

        def hook(event, args):
            if touches(root, event, args):
                tick()

        def tf(path):
            h = _hook["fn"]
            _hook["fn"] = None
            tick()
            tick(path, tear=True)
            _hook["fn"] = h

        code = 78
        try:
            devnull = os.open(os.devnull, os.O_WRONLY)
            os.dup2(devnull, 1)
            os.dup2(devnull, 2)
            with tensor_file_hook(root, tf):
                _hook["fn"] = hook
                fn()
            code = 0
        except BaseException:
            code = 78
        finally:
            os._exit(code)
    _, st = os.waitpid(pid, 0)
    return os.WIFEXITED(st) and os.WEXITSTATUS(st) == 77


def fault_at(root, k, fn):
    """Fork; the child runs fn() with the k-th mutating operation below root
    failing (no space left on the device).  -> (fn gave an error, fault met)"""
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        n = [0]
        lock = threading.Lock()

        def tick():
            with lock:
                n[0] += 1
                hit = n[0] == k
            if hit:
                raise OSError(28, "No space left on device")

        def hook(event, args):
            if touches(root, event, args):
                tick()

        code = 3
        try:
            devnull = os.open(os.devnull, os.O_WRONLY)
            os.dup2(devnull, 1)
            os.dup2(devnull, 2)
            with tensor_file_hook(root, lambda p: tick()):
                _hook["fn"] = hook
                err = fn()
            code = (1 if err else 0) + (2 if n[0] >= k else 0)
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    _, st = os.waitpid(pid, 0)
    code = os.WEXITSTATUS(st) if os.WIFEXITED(st) else 3
    return bool(code & 1), bool(code & 2)
