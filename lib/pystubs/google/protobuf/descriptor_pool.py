"""Reads the serialised FileDescriptorProto of generated code."""
from . import message


def fields_of(b):
    i, o = 0, []
    while i < len(b):
        t, i = message.read_varint(b, i)
        if t & 7 == 0:
            v, i = message.read_varint(b, i)
        elif t & 7 == 2:
            n, i = message.read_varint(b, i)
            v, i = b[i:i + n], i + n
        else:
            raise message.DecodeError("descriptor")
        o.append((t >> 3, v))
    return o


class Field:
    def __init__(self, b):
        d = dict(fields_of(b))
        self.name, self.number, self.type, self.label = d[1].decode(), d[3], d[5], d.get(4)

    def default(self):
        return {message.STRING: "", message.BOOL: False, message.FLOAT: 0.0, message.DOUBLE: 0.0}.get(self.type, 0)


class Enum:
    def __init__(self, b, scope):
        self.name, self.values = None, {}
        for n, v in fields_of(b):
            if n == 1:
                self.name = v.decode()
            elif n == 2:
                d = dict(fields_of(v))
                self.values[d[1].decode()] = d.get(2, 0)
        self.full_name = scope + "." + self.name


class Descriptor:
    def __init__(self, b, package):
        fs = fields_of(b)
        self.name = dict(fs)[1].decode()
        self.full_name = package + "." + self.name
        self.fields = [Field(v) for n, v in fs if n == 2]
        self.enums = [Enum(v, self.full_name) for n, v in fs if n == 4]
        d = dict(FIELDS={f.name: f for f in self.fields}, DESCRIPTOR=self)
        for e in self.enums:
            d.update(e.values)
        self.cls = type(self.name, (message.Message,), d)


class File:
    def __init__(self, b):
        fs = fields_of(b)
        d = dict(fs)
        self.name, self.package = d[1].decode(), d.get(2, b"").decode()
        self.messages = [Descriptor(v, self.package) for n, v in fs if n == 4]
        self.services = {}
        for n, v in fs:
            if n != 6:
                continue
            sv = fields_of(v)
            self.services[dict(sv)[1].decode()] = {dict(fields_of(m))[1].decode(): (dict(fields_of(m))[2].decode(), dict(fields_of(m))[3].decode()) for k, m in sv if k == 2}


class Pool:
    def __init__(self):
        self.files, self.symbols = [], {}

    def AddSerializedFile(self, b):
        f = File(b)
        self.files.append(f)
        for m in f.messages:
            self.symbols[m.full_name] = m.cls
        return f


_default = Pool()


def Default():
    return _default
