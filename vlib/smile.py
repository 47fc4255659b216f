"""Decodes Smile documents (the subset of the format that a list of scalars needs, strictly)."""
import struct


class Bad(Exception):
    pass


def zigzag(n):
    return (n >> 1) ^ -(n & 1)


def decode(b):
    """bytes -> list of values of the one array"""
    if b[:3] != b":)\n":
        raise Bad("header")
    flags = b[3]
    if flags & 0xF0:
        raise Bad("version")
    if flags & 3:
        raise Bad("shared names or values announced")
    i = 4
    if b[i] != 0xF8:
        raise Bad("no array start")
    i += 1
    out = []

    def vint(i):
        n = 0
        while True:
            c = b[i]
            i += 1
            if c & 0x80:
                return (n << 6) | (c & 0x3F), i
            n = (n << 7) | c

    def ascii_(i, n):
        s = b[i:i + n]
        if len(s) != n or any(c >= 128 for c in s):
            raise Bad("ascii text at %d" % i)
        return s.decode("latin1"), i + n
    while True:
        if i >= len(b):
            raise Bad("no array end")
        t = b[i]
        i += 1
        if t == 0xF9:
            break
        if t == 0x20:
            v = ""
        elif 0xC0 <= t <= 0xDF:
            v = zigzag(t - 0xC0)
        elif t in (0x24, 0x25):
            n, i = vint(i)
            v = zigzag(n)
            if t == 0x24 and not -2 ** 31 <= v < 2 ** 31:
                raise Bad("int32 out of range")
        elif t == 0x29:
            n = 0
            for k in range(10):
                c = b[i + k]
                if c & 0x80:
                    raise Bad("double byte")
                n = (n << 7) | c
            i += 10
            if n >> 64:
                raise Bad("double of more than 64 bits")
            v = struct.unpack(">d", struct.pack(">Q", n))[0]
            v = ("d", v, n)
        elif 0x40 <= t <= 0x5F:
            v, i = ascii_(i, t - 0x40 + 1)
        elif 0x60 <= t <= 0x7F:
            v, i = ascii_(i, t - 0x60 + 33)
        elif t == 0xE0:
            e = b.index(0xFC, i)
            v, _ = ascii_(i, e - i)
            i = e + 1
        else:
            raise Bad("token %#x at %d" % (t, i - 1))
        out.append(v)
    if i != len(b):
        raise Bad("bytes after the array")
    return out


def payload(b):
    """bytes -> list of (list of pairs, op, value) as the aggregator reads them"""
    v = decode(b)
    it = iter(v)

    def nat(x, below=None):
        if not isinstance(x, int) or x < 0 or (below is not None and x >= below):
            raise Bad("index %r" % (x,))
        return x
    try:
        n = nat(next(it))
        table = [next(it) for _ in range(n)]
    except StopIteration:
        raise Bad("string table")
    if not all(isinstance(s, str) for s in table):
        raise Bad("string table")
    res = []
    for first in it:
        try:
            k = nat(first)
            pairs = [(table[nat(next(it), n)], table[nat(next(it), n)]) for _ in range(k)]
            op = nat(next(it))
            x = next(it)
        except StopIteration:
            raise Bad("truncated measurement")
        if not isinstance(x, tuple):
            raise Bad("value %r" % (x,))
        res.append((pairs, op, x[1]))
    return res
