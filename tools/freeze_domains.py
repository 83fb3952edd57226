"""One-off: combine the annotation-derived table with the documented overrides into vfspec/domains.py."""
import pprint, sys
exec(open(sys.argv[1]).read())
VS = None
E, IE, SUB, SUP, TT, BR = [('obj', x) for x in ('EmphasisText', 'IndexEntry', 'Subscript', 'Superscript', 'TechnicalTerm', 'Break')]
NUM = ('or', 'int', 'float')
OV = {
 ('NumericalValue', 'value'): NUM,
 ('CompuConst', 'value'): ('or', 'int', 'float', 'str'),
 ('EmphasisText', 'elements'): 'str',
 ('LanguageLongName', 'parts'): ('mixed', E, IE, SUB, SUP, TT),
 ('LanguageOverviewParagraph', 'parts'): ('mixed', BR, E, IE, SUB, SUP, TT),
 ('LanguageParagraph', 'parts'): ('mixed', BR, E, IE, SUB, SUP, TT),
 ('LanguageVerbatim', 'parts'): ('mixed', BR, E, TT),
 ('SingleLanguageUnitNames', 'parts'): ('mixed', SUB, SUP),
 ('DocumentationBlock', 'element'): ('list', ('or', ('obj', 'MultiLanguageParagraph'), ('obj', 'MultiLanguageVerbatim'))),
 ('CompuScale', 'lower_limit'): ('opt', NUM), ('CompuScale', 'upper_limit'): ('opt', NUM),
 ('Computation', 'default_value'): ('opt', ('obj', 'CompuConst')),
 ('Unit', 'display_name'): ('opt', ('obj', 'SingleLanguageUnitNames')),
 ('ValueGroup', 'label'): ('opt', ('obj', 'MultilanguageLongName')),
 ('ExternalTriggerOccurredEvent', 'trigger'): ('opt', ('obj', 'RTriggerInAtomicSwcInstanceRef')),
 ('SwcModeManagerErrorEvent', 'mode_group'): ('opt', ('obj', 'PModeGroupInAtomicSwcInstanceRef')),
}
NAT = set()
import re, ast
# parameters stored through the positive-int setter
src = open('/repo/src/autosar/xml/element.py').read()
tree = ast.parse(src)
for c in tree.body:
    if isinstance(c, ast.ClassDef):
        for n in ast.walk(c):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == '_assign_optional_positive_int':
                NAT.add((c.name, n.args[0].value))
sys.path[:0] = ['/repo/src', '/opt/venv/lib/python3.12/site-packages']
import autosar.xml.element as el
out = {}
for cls, ps in TABLE.items():
    c = getattr(el, cls)
    mro = [k.__name__ for k in c.__mro__]
    l = []
    for p, d in ps:
        if p == 'admin_data':
            continue
        for k in mro:
            if (k, p) in OV:
                d = OV[(k, p)]
                break
        if any((k, p) in NAT for k in mro):
            d = ('opt', 'nat')
        def fix(d):
            if isinstance(d, tuple):
                if d[0] == 'or':
                    alts = list(d[1:])
                    if ('obj', 'SwDataDefProps') in alts:
                        return ('obj', 'SwDataDefProps')
                    if ('ref', 'AutosarDataPrototypeRef') in alts:
                        return ('ref', 'AutosarDataPrototypeRef')
                    if ('obj', 'TransmissionAcknowledgementRequest') in alts:
                        return ('obj', 'TransmissionAcknowledgementRequest')
                    if ('obj', 'ModeSwitchedAckRequest') in alts:
                        return ('obj', 'ModeSwitchedAckRequest')
                    return ('or',) + tuple(fix(x) for x in alts)
                return tuple(fix(x) if i else x for i, x in enumerate(d))
            return d
        l.append((p, fix(d)))
    out[cls] = l
out.pop('AdminData', None)
APPEND = {
 'MultilanguageLongName': ([], ('obj', 'LanguageLongName')),
 'MultiLanguageOverviewParagraph': ([], ('obj', 'LanguageOverviewParagraph')),
}
for n, item in (('MultiLanguageParagraph', 'LanguageParagraph'), ('MultiLanguageVerbatim', 'LanguageVerbatim')):
    ps = [(p, d) for p, d in out[n] if p not in ('paragraph', 'verbatim', 'element')]
    print(n, out[n], file=sys.stderr)
    APPEND[n] = (ps, ('obj', item))
def bad(d):
    return d == '?' or isinstance(d, tuple) and any(bad(x) for x in d)
for c, l in out.items():
    for p, d in l:
        if bad(d):
            print('unresolved', c, p, d, file=sys.stderr)
with open('/verif/vfspec/domains.py', 'w') as f:
    f.write('"""Documented domains of the constructor parameters (frozen; see tools/freeze_domains.py).\n\nThese are the input preconditions of the contracts: which values a user may pass for each\nparameter of each element class.\n"""\n\n')
    f.write('TABLE = ' + pprint.pformat(out, width=120, sort_dicts=False) + '\n\n')
    f.write('# classes filled by append(): (constructor parameters, item domain)\nAPPEND = ' + pprint.pformat(APPEND, width=120, sort_dicts=False) + '\n')
