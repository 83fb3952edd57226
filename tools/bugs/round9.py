H = '''
import autosar.xml
import autosar.xml.element as ar_element
import autosar.xml.enumeration as ar_enum
'''
E = 'xml/element.py'
BUGS = [
    dict(id='B54', property='P10',
         edits=[('xml/reference.py', """        r_port_values = {ar_enum.IdentifiableSubTypes.ABSTRACT_REQUIRED_PORT_PROTOTYPE,
                         ar_enum.IdentifiableSubTypes.R_PORT_PROTOTYPE,""", """        r_port_values = {ar_enum.IdentifiableSubTypes.R_PORT_PROTOTYPE,""")],
         demo=H + '''
r = ar_element.PortPrototypeRef("/A/P", ar_enum.IdentifiableSubTypes.ABSTRACT_REQUIRED_PORT_PROTOTYPE)
assert r.is_require_port_ref and not r.is_provide_port_ref
''', needs='a reference to an abstract required port', breaks='the reference is not one to a port that requires'),
    dict(id='B55', property='P14',
         edits=[(E, """                                                        ar_enum.IdentifiableSubTypes.IMPLEMENTATION_DATA_TYPE_ELEMENT)

    def find(self, ref: str) -> Union["ImplementationDataTypeElement", None]:
        \"\"\"
        Finds sub-element by reference
        \"\"\"
        parts = ref.partition('/')
        elem = self._find_by_name(self.sub_elements, parts[0])
        if elem is not None and len(parts[2]) > 0:
            return elem.find(parts[2])
        return elem
""", """                                                        ar_enum.IdentifiableSubTypes.IMPLEMENTATION_DATA_TYPE_ELEMENT)

    def find(self, ref: str) -> Union["ImplementationDataTypeElement", None]:
        \"\"\"
        Finds sub-element by reference
        \"\"\"
        parts = ref.partition('/')
        elem = self._find_by_name(self.sub_elements, parts[0])
        if elem is not None and len(parts[2]) > 0:
            return elem._find_by_name(elem.sub_elements, parts[2])
        return elem
""")],
         demo=H + '''
names = "abcd"
t = ar_element.ImplementationDataType("T")
parent = t
for n in names:
    x = ar_element.ImplementationDataTypeElement(n)
    parent.append(x)
    parent = x
p = ar_element.Package("P")
d = autosar.xml.Document([p])
p.append(t)
assert d.find("/P/T/a/b/c") is not None
assert d.find(x.ref()) is x
''', needs='a record type with elements that are nested four deep', breaks='the reference does not lead to the element'),
    dict(id='B56', property='P18',
         edits=[(E, """                        com_spec = ClientComSpec(operation_ref=operation.ref(), **com_spec_args)
""", """                        com_spec_args = {k: v for k, v in com_spec_args.items() if v}
                        com_spec = ClientComSpec(operation_ref=operation.ref(), **com_spec_args)
""")],
         demo=H + '''
w = autosar.xml.Workspace()
p = w.make_packages("P")
i = ar_element.ClientServerInterface("I")
i.create_operation("a")
i.create_operation("b")
p.append(i)
c = ar_element.ApplicationSoftwareComponentType("C")
p.append(c)
port = c.create_r_port("R", i, {"a": {"e2e_call_respone_timeout": 0}, "b": {"e2e_call_respone_timeout": 1}})
assert [x.e2e_call_respone_timeout for x in port.com_spec] == [0, 1]
''', needs='a client port of an interface with several operations, where the timeout of one is zero', breaks='the timeout of the operation is lost'),
    dict(id='B57', property='P22',
         edits=[('xml/base.py', """        if value < 0:
            raise ValueError(f"Positive integer expected: {value}")
        setattr(self, attr_name, value)
""", """        setattr(self, attr_name, max(value, -1))
        if value < -1:
            raise ValueError(f"Positive integer expected: {value}")
""")],
         demo=H + '''
try:
    ar_element.ModeDeclaration("A", -1)
except ValueError:
    pass
else:
    raise SystemExit("accepted")
''', needs='the value -1 where only positive integers are allowed', breaks='a negative value is accepted'),
]
