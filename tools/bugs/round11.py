H = '''
import autosar.xml
import autosar.xml.document as ar_document
import autosar.xml.element as ar_element
import autosar.xml.enumeration as ar_enum
'''
E = 'xml/element.py'
BUGS = [
    dict(id='B69', property='P18',
         edits=[(E, """                            com_spec = cls.make_non_queued_sender_com_spec(data_element_ref=data_element.ref(),
                                                                           **com_spec_args)
""", """                            com_spec = cls.make_non_queued_sender_com_spec(data_element_ref=data_element.ref(),
                                                                           **com_spec_args)
                            com_spec_args.clear()
""")],
         demo=H + '''
w = autosar.xml.Workspace()
p = w.make_packages("P")
t = ar_element.ImplementationDataType("T")
p.append(t)
i = ar_element.SenderReceiverInterface("I")
p.append(i)
i.create_data_element("a", type_ref=t.ref())
i.create_data_element("b", type_ref=t.ref())
c = ar_element.ApplicationSoftwareComponentType("C")
p.append(c)
one = {"init_value": 7, "uses_end_to_end_protection": True}
for name in ("p1", "p2"):
    port = c.create_provide_port(name, i, com_spec={"a": one})
    assert port.com_spec[0].uses_end_to_end_protection is True, name
''', needs='settings that are used for two ports of an interface with several data elements', breaks='the second port has none of the settings'),
    dict(id='B70', property='P16',
         edits=[(E, """        if packages is not None:
            for package in packages:
                self.append(package)

    def append(self, package: Package):
""", """        if packages is not None:
            packages.sort(key=lambda x: x.name)
            for package in packages:
                self.append(package)

    def append(self, package: Package):
""")],
         demo=H + '''
d = ar_document.Document([ar_element.Package("B"), ar_element.Package("A")])
got = autosar.xml.Reader().read_str(autosar.xml.Writer().write_str(d, False))
assert [p.name for p in got.packages] == ["B", "A"]
''', needs='packages that are not in the order of their names', breaks='their order, also in the list of the caller'),
    dict(id='B71', property='P11',
         edits=[(E, """            elif isinstance(elements, list):
                for element in elements:
                    self.append(element)

    def append(self, element: ValueSpecificationElement):
        \"\"\"
        Appends element to array""", """            elif isinstance(elements, list):
                for element in elements:
                    self.append(element)
                self.elements = elements

    def append(self, element: ValueSpecificationElement):
        \"\"\"
        Appends element to array""")],
         demo=H + '''
parts = [ar_element.NumericalValueSpecification(value=1)]
a, b = (ar_element.ArrayValueSpecification(elements=parts) for i in range(2))
a.append(ar_element.NumericalValueSpecification(value=2))
assert len(b.elements) == 1 and len(parts) == 1
''', needs='two arrays made from one list', breaks='what is appended to one is in the other'),
    dict(id='B72', property='P17',
         edits=[('xml/workspace.py', """            depends_map = self._create_dependencies(template.depends)
""", """            depends_map = getattr(template, '_depends_map', None)
            if depends_map is None:
                depends_map = template._depends_map = self._create_dependencies(template.depends)
""")],
         demo=H + '''
from autosar.xml.template import ElementTemplate


class T(ElementTemplate):
    def create(self, package, workspace, dependencies, **kwargs):
        return ar_element.SwBaseType(self.element_name)


base = T("base", "N", ar_enum.PackageRole.BASE_TYPE)
top = T("top", "N", ar_enum.PackageRole.BASE_TYPE, [base])
for i in range(2):
    w = autosar.xml.Workspace()
    w.create_namespace("N", {"BaseType": "B"}, "/")
    w.apply(top)
    assert w.find("/B/top") is not None and w.find("/B/base") is not None, i
''', needs='a template with dependencies that is applied in two workspaces', breaks='the dependencies are not made in the second one'),
    dict(id='B73', property='P20',
         edits=[(E, """            if not isinstance(value[0], str):
                raise TypeError("First element of a list must be a string")
""", """            if not isinstance(value[0], str):
                raise TypeError("First element of a list must be a string")
            if len(value) == 2 and isinstance(value[1], list):
                value = value[1]
""")],
         demo=H + '''
x = ar_element.ValueSpecification.make_value(["A", ["R", 1, 2]])
assert type(x) is ar_element.ArrayValueSpecification and len(x.elements) == 1
''', needs='an array with a record as its only element', breaks='the array is lost'),
    dict(id='B74', property='P09',
         edits=[('xml/enumeration.py', """    enum_mapping: dict = xml_to_enum_map[enum_type_name]
    entry = enum_mapping[xml_text]
""", """    if (enum_type_name, xml_text) in _known:
        return _known[(enum_type_name, xml_text)]
    enum_mapping: dict = xml_to_enum_map[enum_type_name]
    entry = enum_mapping[xml_text]
"""), ('xml/enumeration.py', """            raise ar_exception.VersionError(f"'{xml_text}'")
        return entry.value
""", """            raise ar_exception.VersionError(f"'{xml_text}'")
        _known[(enum_type_name, xml_text)] = entry.value
        return entry.value
"""), ('xml/enumeration.py', "def xml_to_enum(", "_known = {}\n\n\ndef xml_to_enum(")],
         demo=H + '''
import autosar.xml.exception as ar_exception
names = [(t, x, e.valid_versions) for t, m in ar_enum.xml_to_enum_map.items() for x, e in m.items() if isinstance(e, ar_enum.VersionedEnumValue)]
for t, x, versions in names:
    ar_enum.xml_to_enum(t, x, max(versions))
    try:
        ar_enum.xml_to_enum(t, x, 40)
    except ar_exception.VersionError:
        continue
    raise AssertionError((t, x))
''', needs='a text that was read for a newer schema version before', breaks='it is accepted for an older one'),
    dict(id='B75', property='P14',
         edits=[(E, """        ref_parts: list[str] = [self.name]
        self.parent.update_ref_parts(ref_parts)
        if ref_parts[-1] is None:
            return None
        return '/'.join(reversed(ref_parts))
""", """        known = getattr(self.parent, '_known_refs', None)
        if known is not None and self.name in known:
            return known[self.name]
        ref_parts: list[str] = [self.name]
        self.parent.update_ref_parts(ref_parts)
        if ref_parts[-1] is None:
            return None
        text = '/'.join(reversed(ref_parts))
        if isinstance(self.parent, Package):
            if known is None:
                self.parent._known_refs = {}
            self.parent._known_refs[self.name] = text
        return text
""")],
         demo=H + '''
first, second = ar_document.Document(), ar_document.Document()
a = first.create_package("A")
p = a.create_package("P")
u = ar_element.Unit("U")
p.append(u)
assert str(u.ref()) == "/A/P/U"
second.create_package("B").append(p)
assert str(u.ref()) == "/B/P/U"
''', needs='a package that is put elsewhere after a reference to its element was made', breaks='references go by the old place'),
]
