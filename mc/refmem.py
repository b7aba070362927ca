"""Reference model of an image: a sorted list of (start, bytearray) fragments. Deliberately boring."""


class RefImage:
    def __init__(self):
        self.frags = []  # sorted, non overlapping
        self.cursor = 0

    def clone(self):
        r = RefImage()
        r.frags = [(s, bytearray(d)) for s, d in self.frags]
        r.cursor = self.cursor
        return r

    def overlaps(self, addr, n):
        return any(s < addr + n and addr < s + len(d) for s, d in self.frags)

    def insert(self, addr, data, join):
        """False if refused."""
        if addr is None:
            addr = self.cursor
        if self.overlaps(addr, len(data)):
            return False
        self.frags.append((addr, bytearray(data)))
        self.frags.sort(key=lambda f: f[0])
        self.cursor = addr + len(data)
        if join:
            self.join()
        return True

    def join(self):
        out = []
        for s, d in self.frags:
            if out and out[-1][0] + len(out[-1][1]) == s:
                out[-1][1].extend(d)
            else:
                out.append((s, bytearray(d)))
        self.frags = out

    def frag_of(self, addr):
        for s, d in self.frags:
            if s <= addr < s + len(d):
                return s, d
        return None

    def read(self, addr, n):
        """None if the range is not within one section."""
        f = self.frag_of(addr)
        if f is None or addr + n > f[0] + len(f[1]):
            return None
        return bytes(f[1][addr - f[0] : addr - f[0] + n])

    def write(self, addr, data):
        f = self.frag_of(addr)
        if f is None or addr + len(data) > f[0] + len(f[1]):
            return False
        f[1][addr - f[0] : addr - f[0] + len(data)] = data
        return True

    def snapshot(self):
        return tuple((s, bytes(d)) for s, d in self.frags)


def normalize(cells):
    """dict address -> byte  to  coalesced tuple of (start, bytes)."""
    out = []
    for a in sorted(cells):
        if out and out[-1][0] + len(out[-1][1]) == a:
            out[-1][1].append(cells[a])
        else:
            out.append((a, bytearray([cells[a]])))
    return tuple((s, bytes(d)) for s, d in out)


def snap(image):
    """What the API shows of an image."""
    return tuple((s.start_address, bytes(s.data)) for s in image.sections)


def cells_of(sections):
    return {s + i: b for s, d in sections for i, b in enumerate(d)}
