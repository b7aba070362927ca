"""Opening generated ELF files in a scratch directory (the parser writes its data base next to the file)."""

import contextlib
import os
import shutil
import tempfile

BASE = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="mc-elf-", dir=BASE)
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def write(path, blob):
    with open(path, "wb") as f:
        f.write(blob)


@contextlib.contextmanager
def opened(path):
    from objutils.elf import ElfParser

    ep = ElfParser(path)
    try:
        yield ep
    finally:
        ep.db.close()


@contextlib.contextmanager
def parsed(blob, name="a.elf"):
    """Parser for `blob`, freshly imported."""
    with scratch() as d:
        path = os.path.join(d, name)
        write(path, blob)
        with opened(path) as ep:
            yield ep


@contextlib.contextmanager
def both(blob):
    """Callable which yields the fresh import, then the parser backed by the existing data base."""
    with scratch() as d:
        path = os.path.join(d, "a.elf")
        write(path, blob)

        def passes():
            for how in ("import", "data base"):
                with opened(path) as ep:
                    yield how, ep

        yield passes
