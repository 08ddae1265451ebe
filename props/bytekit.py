"""Files made of given bytes, symbolic bytes and stretches of arbitrary contents of symbolic length."""
from symx.api import LargeBytes, ModelFile


class BytesFile(ModelFile):
    """A file with the given contents."""

    def __init__(self, x, name, data, lock=None):
        super().__init__(x, name, x.len(data), lock)
        self.data = data

    def read(self, size=-1):
        self._access()
        end = self.size if size is None or size < 0 else self.api.min(self.pos + size, self.size)
        if end <= self.pos:
            return b''
        data = self.data[self.pos:end]
        self.pos = end
        return data

    read1 = read

    def getbuffer(self):
        return self.data


def join(x, parts):
    """The concatenation of bytes."""
    if not x.symbolic:
        large = any(isinstance(p, LargeBytes) for p in parts)
        return LargeBytes.join(parts) if large else b''.join(parts)
    from symx.data import SBytes

    flat = []
    for p in parts:
        flat += p.parts if isinstance(p, SBytes) else [p]
    return SBytes.make(flat)


def number(x, name, digits, base=10):
    """The ASCII digits of any number that has that many digits, and the number."""
    text = x.bytes(name, digits, b'0123456789'[:base])
    value = 0
    for c in text:
        value = value * base + (c - 48)
    return text, value
