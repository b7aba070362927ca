"""Records what opening an ELF file does to the file system, so that every state a crash can leave may be rebuilt.

A helper process runs the library with an LD_PRELOAD library (native/fsrec.c, compiled on first use) which logs each
create, write, truncate, rename and unlink below the scratch directory. The states a killed process leaves behind are
exactly the prefixes of that log, plus a last write which was carried out in part.
"""

import json
import os
import subprocess
import sys
import tempfile

if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from mc import core

SOURCE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "native", "fsrec.c")


class Recorder:
    """The helper ends when its standard input is closed, i.e. with this process."""

    def __init__(self):
        with tempfile.TemporaryDirectory(prefix="mc-rec-") as tmp:
            lib = os.path.join(tmp, "fsrec.so")
            r = subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", lib, SOURCE, "-ldl"], capture_output=True, text=True)
            if r.returncode:
                raise core.HarnessError("cannot compile fsrec.c: " + r.stderr)
            env = dict(os.environ, LD_PRELOAD=lib, MC_FSREC=lib)
            self.proc = subprocess.Popen([sys.executable, os.path.abspath(__file__)], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env)
            if self.proc.stdout.readline().strip() != "ready":
                raise core.HarnessError("recorder does not start")

    def record(self, directory, name):
        """Open directory/name in the helper process; returns (error or None, list of (op, off, path, data))."""
        fd, log = tempfile.mkstemp(prefix="mc-rec-")
        os.close(fd)
        try:
            self.proc.stdin.write(json.dumps([directory, name, log]) + "\n")
            self.proc.stdin.flush()
            line = self.proc.stdout.readline()
            if not line:
                raise core.HarnessError("recorder died")
            return json.loads(line), list(parse(log))
        finally:
            os.unlink(log)


def parse(log):
    with open(log, "rb") as f:
        raw = f.read()
    pos = 0
    while pos < len(raw):
        end = raw.index(b"\n", pos)
        op, off, n, path = raw[pos:end].decode().split(" ", 3)
        data = raw[end + 1 : end + 1 + int(n)]
        pos = end + 1 + int(n)
        yield op, int(off), path, data


def apply(files, op, off, path, data):
    """Apply one log entry to `files`, a dict name -> bytearray."""
    if op == "create":
        files.setdefault(path, bytearray())
    elif op == "unlink":
        files.pop(path, None)
    elif op == "trunc":
        b = files.setdefault(path, bytearray())
        b[off:] = bytes(max(0, off - len(b)))
    elif op == "rename":
        if path in files:
            files[data.decode()] = files.pop(path)
    elif op == "write":
        b = files.setdefault(path, bytearray())
        if len(b) < off:
            b.extend(bytes(off - len(b)))
        b[off : off + len(data)] = data


def states(initial, ops, cuts=(1, 2, -1)):
    """Every state left by a crash: (description, files). The last write is also cut off, after 1 byte, at half of it (2), before its last byte (-1)."""
    files = {k: bytearray(v) for k, v in initial.items()}
    yield "before the first change", files
    for i, (op, off, path, data) in enumerate(ops):
        if op == "write" and len(data) > 1:
            for part in sorted({{1: 1, 2: len(data) // 2, -1: len(data) - 1}[c] for c in cuts}):
                torn = {k: bytearray(v) for k, v in files.items()}
                apply(torn, op, off, path, data[:part])
                yield f"change {i + 1} of {len(ops)} (write of {len(data)} bytes to {path}) cut off after {part} bytes", torn
        before = {k: bytes(v) for k, v in files.items()} if op != "write" else None
        apply(files, op, off, path, data)
        if before is None or before != files:
            yield f"after change {i + 1} of {len(ops)} ({op} {path})", files


def load(directory):
    out = {}
    for n in os.listdir(directory):
        with open(os.path.join(directory, n), "rb") as f:
            out[n] = f.read()
    return out


def store(directory, files):
    for n in os.listdir(directory):
        if n not in files:
            os.unlink(os.path.join(directory, n))
    for n, b in files.items():
        with open(os.path.join(directory, n), "wb") as f:
            f.write(b)


_recorder = None


def recorder():
    global _recorder
    if _recorder is None:
        _recorder = Recorder()
    return _recorder


def serve():
    import ctypes
    import gc

    out = os.fdopen(os.dup(1), "w")
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    core._setup_process()
    from objutils.elf import ElfParser

    lib = ctypes.CDLL(os.environ["MC_FSREC"])
    print("ready", file=out, flush=True)
    for line in sys.stdin:
        directory, name, log = json.loads(line)
        err = None
        lib.mc_record(directory.encode(), log.encode())
        try:
            ep = ElfParser(os.path.join(directory, name))
            ep.db.close()
            del ep
        except Exception as e:
            err = repr(e)
        gc.collect()
        lib.mc_record(None, None)
        print(json.dumps(err), file=out, flush=True)


if __name__ == "__main__":
    serve()
