H = '''
import autosar.xml
import autosar.xml.document as ar_document
import autosar.xml.element as ar_element
import autosar.xml.enumeration as ar_enum
'''
E, W, R = 'xml/element.py', 'xml/writer.py', 'xml/reader.py'
BUGS = [
    dict(id='B58', property='P21',
         edits=[('model/implementation.py', """        if str(elem_ref) not in self.data_types:
""", """        for known in self.data_types.values():
            if known.name == element.name:
                return known
        if str(elem_ref) not in self.data_types:
""")],
         demo=H + '''
from autosar.model import ImplementationModel
w = autosar.xml.Workspace()
p, q = w.make_packages("P", "Q")
a = ar_element.SwBaseType("T", native_declaration="short")
b = ar_element.SwBaseType("T", native_declaration="long")
p.append(a)
q.append(b)
m = ImplementationModel(w)
assert m.create_from_element(a).native_declaration == "short"
assert m.create_from_element(b).native_declaration == "long"
''', needs='two types of one name in different packages', breaks='the second type is the first one'),
    dict(id='B59', property='P07',
         edits=[(W, """        self.fh.write(self.indentation_str)
        self.fh.write(text)

    def _add_inline""", """        if self.indentation_level < 32:
            self.fh.write(self.indentation_str)
            self.fh.write(text)

    def _add_inline""")],
         demo=H + '''
import lxml.etree
p = ar_element.Package("P0")
root = p
for i in range(1, 20):
    p = p.create_package("P%d" % i)
text = autosar.xml.Writer().write_str_elem(root)
names = lxml.etree.fromstring(text).findall(".//SHORT-NAME")
assert len(names) == 20, len(names)
''', needs='elements nested more than 32 deep', breaks='their contents are not in the text'),
    dict(id='B60', property='P16',
         edits=[(W, """        self.schema_version = document.schema_version
        self._add_line(""", """        if self.schema_version is None or document.schema_version > self.schema_version:
            self.schema_version = document.schema_version
        self._add_line(""")],
         demo=H + '''
def doc(version):
    p = ar_element.Package("P")
    p.append(ar_element.ApplicationSoftwareComponentType("C", internal_behavior=ar_element.SwcInternalBehavior(
        "B", runnables=[ar_element.RunnableEntity("R", can_enter_leave=["/A/B/C"])])))
    return ar_document.Document([p], version)
used = autosar.xml.Writer()
for version in (51, 48, 50, 49):
    assert used.write_str(doc(version)) == autosar.xml.Writer(schema_version=version).write_str(doc(version)), version
''', needs='one writer that writes a document of a newer schema and then one of an older schema', breaks='the older document has elements of the newer schema'),
    dict(id='B61', property='P06',
         edits=[(W, """        for elem in package.elements:
            class_name""", """        for elem in package.elements[:1024]:
            class_name""")],
         demo=H + '''
p = ar_element.Package("P")
for i in range(1030):
    p.append(ar_element.Unit("U%d" % i))
text = autosar.xml.Writer().write_str(ar_document.Document([p]), False)
got = autosar.xml.Reader().read_str(text).packages[0]
assert [e.name for e in got.elements] == [e.name for e in p.elements]
''', needs='a package with more than 1024 elements', breaks='the others are not written'),
    dict(id='B62', property='P16',
         edits=[(R, """            child_package = self._read_package(xml_child_package)
""", """            child_package = self._read_package(xml_child_package)
            if child_package.name == package.name:
                continue
""")],
         demo=H + '''
d = autosar.xml.Document()
d.create_package("A").create_package("A").append(ar_element.Unit("U"))
got = autosar.xml.Reader().read_str(autosar.xml.Writer().write_str(d, False))
assert [p.name for p in got.packages[0].packages] == ["A"]
''', needs='a package in a package of the same name', breaks='the inner package is lost'),
    dict(id='B63', property='P13',
         edits=[(E, """            package.parent = self
            self.packages.append(package)
            self._collection_map[package.name] = package
""", """            if package.parent is None:
                package.parent = self
            self.packages.append(package)
            self._collection_map[package.name] = package
""")],
         demo=H + '''
import sys
first, second = autosar.xml.Document(), autosar.xml.Document()
outer = first.create_package("A")
p = outer.create_package("B")
u = ar_element.Unit("U")
p.append(u)
other = ar_element.Package("Z")
other.append(p)
second.append(other)
assert second.find("/Z/B/U") is u
assert second.find(str(u.ref())) is u, str(u.ref())
''', needs='a package that has a parent and is put into another one', breaks='the references to its elements go by the old parent'),
    dict(id='B64', property='P16',
         edits=[(R, """        self.observed_unsupported_elements = set()
        self.document = None
        self.xml_root = ElementTree.fromstring(bytes(xml, encoding="utf-8"))
""", """        self.document = None
        self.xml_root = ElementTree.fromstring(bytes(xml, encoding="utf-8"))
""")],
         demo=H + '''
import contextlib, io
text = """<?xml version="1.0" encoding="utf-8"?>
<AUTOSAR xsi:schemaLocation="http://autosar.org/schema/r4.0 AUTOSAR_00051.xsd" xmlns="http://autosar.org/schema/r4.0" xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance">
<AR-PACKAGES><AR-PACKAGE><SHORT-NAME>P</SHORT-NAME><ELEMENTS><STRANGE><SHORT-NAME>S</SHORT-NAME></STRANGE></ELEMENTS></AR-PACKAGE></AR-PACKAGES></AUTOSAR>"""
r = autosar.xml.Reader()
out = []
for i in range(2):
    with contextlib.redirect_stdout(io.StringIO()) as f, contextlib.redirect_stderr(f):
        r.read_str(text)
    out.append(f.getvalue())
assert out[0] and "STRANGE" in out[1], out
''', needs='a reader that has met the unknown kind of element in an earlier document', breaks='the element is left out without a report'),
    dict(id='B65', property='P07',
         edits=[(W, """        self.fh = StringIO()
        self.line_number = 1
        self.indentation_level = 0
        self.indentation_str = ''
""", """        self.fh = StringIO()
        self.line_number = 1
        self.indentation_level = 0
""")],
         demo=H + '''
import lxml.etree
w = autosar.xml.Writer()
bad, good = autosar.xml.Document(), autosar.xml.Document()
bad.create_package("A").append(ar_element.ARElement("X"))
try:
    w.write_str(bad)
except NotImplementedError:
    pass
good.create_package("A")
lxml.etree.fromstring(w.write_str(good).encode("utf-8"))
''', needs='a writer that was interrupted inside a document', breaks='the next document does not start at its XML declaration'),
    dict(id='B67', property='P04',
         edits=[(W, """        if elem.require_port is not None:
            self._write_port_in_composition_type_instance_ref(elem.require_port, "REQUESTER-IREF")
""", """        if elem.require_port is not None and (elem.provide_port is None
                                              or str(elem.provide_port.port_ref) != str(elem.require_port.port_ref)):
            self._write_port_in_composition_type_instance_ref(elem.require_port, "REQUESTER-IREF")
""")],
         demo=H + '''
RC = ar_enum.IdentifiableSubTypes
c = ar_element.AssemblySwConnector(
    "C",
    ar_element.PortInCompositionTypeInstanceRef(ar_element.SwComponentPrototypeRef("/S/A", RC.SW_COMPONENT_PROTOTYPE), ar_element.PortPrototypeRef("/T/P", RC.PR_PORT_PROTOTYPE)),
    ar_element.PortInCompositionTypeInstanceRef(ar_element.SwComponentPrototypeRef("/S/B", RC.SW_COMPONENT_PROTOTYPE), ar_element.PortPrototypeRef("/T/P", RC.PR_PORT_PROTOTYPE)))
got = autosar.xml.Reader().read_str_elem(autosar.xml.Writer().write_str_elem(c))
assert got.require_port is not None and str(got.require_port.component_ref) == "/S/B"
''', needs='a connector between the same port of two instances of one component type', breaks='the port that requires is lost'),
    dict(id='B68', property='P01',
         edits=[(W, """        if elem.upper_limit is not None:
            self._write_limit("UPPER-LIMIT", elem.upper_limit, elem.upper_limit_type)
        if elem.inverse_value""", """        if elem.upper_limit is not None and not (isinstance(elem.lower_limit, float) and elem.lower_limit == elem.upper_limit):
            self._write_limit("UPPER-LIMIT", elem.upper_limit, elem.upper_limit_type)
        if elem.inverse_value""")],
         demo=H + '''
s = ar_element.CompuScale(lower_limit=1.5, upper_limit=1.5, lower_limit_type=ar_enum.IntervalType.CLOSED, upper_limit_type=ar_enum.IntervalType.CLOSED)
got = autosar.xml.Reader().read_str_elem(autosar.xml.Writer().write_str_elem(s))
assert got.upper_limit == 1.5
''', needs='a scale from a floating point number to itself', breaks='the upper limit is lost'),
]
