from . import descriptor_pool


class SymbolDatabase:
    def GetSymbol(self, n):
        return descriptor_pool.Default().symbols[n]

    GetPrototype = None

    def RegisterMessage(self, m):
        return m


_default = SymbolDatabase()


def Default():
    return _default
