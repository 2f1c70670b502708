"""Messages with the Protobuf wire encoding."""
import struct

DOUBLE, FLOAT, INT64, UINT64, INT32, FIXED64, FIXED32, BOOL, STRING, GROUP, MESSAGE, BYTES, UINT32, ENUM = range(1, 15)


class DecodeError(Exception):
    pass


class EncodeError(Exception):
    pass


def varint(v):
    o = bytearray()
    while v >= 0x80:
        o.append(v & 0x7F | 0x80)
        v >>= 7
    o.append(v)
    return bytes(o)


def read_varint(b, i):
    v = s = 0
    while True:
        if i >= len(b) or s > 63:
            raise DecodeError("varint")
        v |= (b[i] & 0x7F) << s
        s += 7
        i += 1
        if b[i - 1] < 0x80:
            return v, i


def check(f, v):
    """The value a field takes when v is assigned to it."""
    if f.type in (UINT32, ENUM, INT32):
        if isinstance(v, float) or not hasattr(v, "__index__"):
            raise TypeError("%r has type %s, but expected one of: (int,) for field %s" % (v, type(v), f.name))
        v = v.__index__()
        lo, hi = (0, 2**32 - 1) if f.type == UINT32 else (-2**31, 2**31 - 1)
        if not lo <= v <= hi:
            raise ValueError("Value out of range: %d" % v)
        return v
    if f.type == BOOL:
        if not hasattr(v, "__index__"):
            raise TypeError("%r for field %s" % (v, f.name))
        return bool(v)
    if f.type in (FLOAT, DOUBLE):
        if isinstance(v, str):
            raise TypeError("%r for field %s" % (v, f.name))
        return struct.unpack("<f", struct.pack("<f", float(v)))[0]
    if f.type == STRING:
        if isinstance(v, bytes):
            return v.decode()
        if not isinstance(v, str):
            raise TypeError("%r for field %s" % (v, f.name))
        return v
    raise TypeError("unsupported field type %d" % f.type)


class Message:
    FIELDS = {}

    def __init__(self, **kw):
        object.__setattr__(self, "_v", {n: f.default() for n, f in self.FIELDS.items()})
        for k, v in kw.items():
            if k not in self.FIELDS:
                raise ValueError("Protocol message %s has no %r field." % (type(self).__name__, k))
            if v is not None:
                setattr(self, k, v)

    def __getattr__(self, n):
        v = self.__dict__.get("_v", {})
        if n in v:
            return v[n]
        raise AttributeError(n)

    def __setattr__(self, n, v):
        if n not in self.FIELDS:
            raise AttributeError("Assignment not allowed (no field %r in protocol message object)." % n)
        self._v[n] = check(self.FIELDS[n], v)

    def __eq__(self, o):
        return type(o) is type(self) and o._v == self._v

    def SerializeToString(self):
        o = b""
        for n, f in sorted(self.FIELDS.items(), key=lambda x: x[1].number):
            v = self._v[n]
            if v == f.default():
                continue
            if f.type in (UINT32, BOOL, ENUM, INT32):
                o += varint(f.number << 3) + varint(int(v) & (2**64 - 1))
            elif f.type == FLOAT:
                o += varint(f.number << 3 | 5) + struct.pack("<f", v)
            elif f.type == STRING:
                b = v.encode()
                o += varint(f.number << 3 | 2) + varint(len(b)) + b
        return o

    def ParseFromString(self, b):
        self._v.update({n: f.default() for n, f in self.FIELDS.items()})
        by = {f.number: f for f in self.FIELDS.values()}
        i = 0
        while i < len(b):
            t, i = read_varint(b, i)
            f = by.get(t >> 3)
            wt = t & 7
            if wt == 0:
                v, i = read_varint(b, i)
            elif wt == 5:
                v, i = b[i:i + 4], i + 4
            elif wt == 1:
                v, i = b[i:i + 8], i + 8
            elif wt == 2:
                n, i = read_varint(b, i)
                v, i = b[i:i + n], i + n
            else:
                raise DecodeError("wire type %d" % wt)
            if i > len(b):
                raise DecodeError("truncated")
            if f is None or wt != {FLOAT: 5, STRING: 2}.get(f.type, 0):
                continue
            if f.type == FLOAT:
                v = struct.unpack("<f", v)[0]
            elif f.type == STRING:
                v = v.decode()
            elif f.type == BOOL:
                v = v != 0
            elif f.type == UINT32:
                v &= 2**32 - 1
            self._v[f.name] = v
        return len(b)

    @classmethod
    def FromString(cls, b):
        m = cls()
        m.ParseFromString(b)
        return m
