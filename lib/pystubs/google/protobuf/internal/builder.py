def BuildMessageAndEnumDescriptors(f, module):
    for m in f.messages:
        module["_" + m.name.upper()] = m
        for e in m.enums:
            module["_%s_%s" % (m.name.upper(), e.name.upper())] = e


def BuildTopDescriptorsAndMessages(f, name, module):
    for m in f.messages:
        m.cls.__module__ = name
        module[m.name] = m.cls


def BuildServices(f, name, module):
    pass


def AddHelpersToExtensions(f):
    pass
