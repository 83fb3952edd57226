"""P09: every enumeration value has one ARXML text, the one AUTOSAR defines, and is read back from it."""
from . import Spec
from .api import check, raises, assume
from .enums import ENUMS, ALIASES

VERSIONS = range(40, 60)


def valid(entry, version):
    return entry[1] is None or version in entry[1]


def texts(name):
    def spec(m):
        import autosar.xml.enumeration as ar_enum
        text, versions = ENUMS[name][m.name]
        check(ar_enum.enum_to_xml(m) == text, 'the text is the one AUTOSAR defines')
        check(ar_enum.xml_to_enum(name, text) is m, 'the text is read as the value')
        if versions is None:
            for v in (46, 47, 48, 49, 50, 51, 52):
                check(ar_enum.enum_to_xml(m, v) == text, 'the text is the same in all schema versions')
                check(ar_enum.xml_to_enum(name, text, v) is m, 'the text is read in all schema versions')
    return spec


def per_version(name):
    def spec(m):
        import autosar.xml.enumeration as ar_enum
        import autosar.xml.exception as ar_exception
        entry = ENUMS[name][m.name]
        for v in VERSIONS:
            if valid(entry, v):
                check(ar_enum.enum_to_xml(m, v) == entry[0], 'the text is the one of the schema version')
                check(ar_enum.xml_to_enum(name, entry[0], v) is m, 'the text is read as the value in the schema version')
            else:
                check(raises(ar_exception.VersionError, ar_enum.enum_to_xml, m, v), 'not written in a version that does not have it')
                check(raises(ar_exception.VersionError, ar_enum.xml_to_enum, name, entry[0], v), 'not read in a version that does not have it')
    return spec


def unknown(name):
    def spec(t):
        import autosar.xml.enumeration as ar_enum
        for text, _ in ENUMS[name].values():
            assume(t != text)
        for text in ALIASES.get(name, ()):
            assume(t != text)
        check(raises(Exception, ar_enum.xml_to_enum, name, t), 'an unknown text is rejected')
    return spec


def aliases(name):
    def spec():
        import autosar.xml.enumeration as ar_enum
        for text, member in ALIASES[name].items():
            check(ar_enum.xml_to_enum(name, text).name == member, 'an alternative text is read as the value')
    return spec


def package_role(m):
    import autosar.xml.enumeration as ar_enum
    check(ar_enum.str_to_package_role(m.name) is m, 'a role is found by its name')
    check(ar_enum.str_to_package_role(''.join(w.title() for w in m.name.split('_'))) is m, 'a role is found by its name in camel case')


def distinct(name):
    def spec(a, b):
        import autosar.xml.enumeration as ar_enum
        if a is not b:
            check(ar_enum.enum_to_xml(a) != ar_enum.enum_to_xml(b), 'different values have different texts')
    return spec


def specs():
    import autosar.xml.enumeration as en
    out = []
    for n, t in ENUMS.items():
        c = getattr(en, n, None)
        if c is None:
            continue
        d = ('enum', [m for m in c if m.name in t])
        k = 40 + 4 * len(t)
        out.append(Spec('text: ' + n, texts(n), [('m', d)], samples=k))
        if any(v is not None for _, v in t.values()):
            out.append(Spec('versions: ' + n, per_version(n), [('m', d)], samples=k))
        out.append(Spec('unknown: ' + n, unknown(n), [('t', 'str')], samples=40))
        out.append(Spec('distinct: ' + n, distinct(n), [('a', ('enum', list(c))), ('b', ('enum', list(c)))], samples=k))
        if n in ALIASES:
            out.append(Spec('aliases: ' + n, aliases(n), []))
    out.append(Spec('package roles', package_role, [('m', ('enum', 'PackageRole'))], samples=60))
    return out
