H = '''
import os
import tempfile
import autosar.xml
import autosar.xml.document
import autosar.xml.element as ar_element
import autosar.xml.enumeration as ar_enum
import autosar.xml.template
import autosar.xml.workspace


'''
W, R, E, S = 'xml/writer.py', 'xml/reader.py', 'xml/element.py', 'xml/workspace.py'
BUGS = [
    dict(id='B21', property='P16',
         edits=[(R, '''                if match is not None:
                    self.schema_file = 'AUTOSAR_\'''', '''                if match is not None and self.schema_version == ar_base.DEFAULT_SCHEMA_VERSION:
                    self.schema_file = 'AUTOSAR_\'''')] if False else
         [(R, '''                    self.schema_version = int(match.group(1))''',
           '''                    self.schema_version = min(int(match.group(1)), self.schema_version)''')],
         demo=H + '''
w, r = autosar.xml.Writer(), autosar.xml.Reader()
assert r.read_str(w.write_str(autosar.xml.document.Document(schema_version=49), False)).schema_version == 49
assert r.read_str(w.write_str(autosar.xml.document.Document(schema_version=51), False)).schema_version == 51
''', needs='a reader that read a document of an older version before', breaks='the schema version of the second document is wrong'),
    dict(id='B22', property='P16',
         edits=[(R, """        for xml_child_package in xml_packages.findall('./AR-PACKAGE'):""", """        for xml_child_package in xml_packages.findall('.//AR-PACKAGE'):""")],
         demo=H + '''
d = autosar.xml.document.Document()
d.make_packages("A/B/C")
got = autosar.xml.Reader().read_str(autosar.xml.Writer().write_str(d))
assert [p.name for p in got.find("A").packages] == ["B"]
''', needs='a document with three levels of packages', breaks='the innermost packages are read a second time, one level up'),
    dict(id='B23', property='P17',
         edits=[(S, '''            for element in package.elements:
                element_map[element.name] = element
                if isinstance(element, mapping.element_types):
                    type_matched_elements[element.name] = element
''', '''            for element in package.elements:
                if isinstance(element, mapping.element_types):
                    type_matched_elements[element.name] = element
                else:
                    element_map[element.name] = element
''')],
         demo=H + '''
with tempfile.TemporaryDirectory() as d:
    ws = autosar.xml.workspace.Workspace(document_root=d)
    p = ws.make_packages("A")
    for n in ("X", "X_Y"):
        p.append(ar_element.SwBaseType(n))
    ws.create_document_mapping("/A", ar_element.SwBaseType, ["_Y"])
    ws.write_documents()
    got = autosar.xml.Reader().read_file(os.path.join(d, "X.arxml"))
    assert [x.name for x in got.find("A").elements] == ["X", "X_Y"]
''', needs='a document mapping whose suffix leads to an element of the mapped kind itself', breaks='the element is missing in the document'),
    dict(id='B24', property='P17',
         edits=[(S, '''            abs_path = posixpath.join(self.base_ref, rel_path)
''', '''            abs_path = posixpath.join(self.base_ref, rel_path.lstrip("./"))
''')],
         demo=H + '''
ws = autosar.xml.workspace.Workspace()
ws.create_namespace("N", {"Unit": "/Other/Units"})
assert ws.get_package_ref_by_role("N", ar_enum.PackageRole.UNIT) == "/Other/Units"
''', needs='a role mapped to an absolute path', breaks='the path is taken as relative'),
    dict(id='B25', property='P17',
         edits=[(S, '''            item_map[str(elem.ref())] = elem
''', '''            item_map.setdefault(elem.name, elem)
            item_map[str(elem.ref())] = elem
''')],
         demo=H + '''
seen = []


class T(autosar.xml.template.ElementTemplate):
    def create(self, package, workspace, dependencies, **kwargs):
        seen.append(dependencies)
        return ar_element.Unit(self.element_name)


ws = autosar.xml.workspace.Workspace()
ws.create_namespace("N", {"Unit": "Units"})
a = T("A", "N", ar_enum.PackageRole.UNIT)
ws.apply(T("B", "N", ar_enum.PackageRole.UNIT, [a]))
assert list(seen[1]) == ["/N/Units/A"], seen
''', needs='a template with dependencies that looks at all of them', breaks='the dependencies are given twice'),
    dict(id='B26', property='P17',
         edits=[(S, '''                elem = template.create(package, self, depends_map, **kwargs)
''', '''                elem = template.create(package, self, depends_map or None, **kwargs)
'''), (S, '''            elem = self.apply(dependency)
            if not''', '''            elem = self.find(dependency.ref(self)) if isinstance(dependency, ar_template.ElementTemplate) else None
            if elem is None:
                elem = self.apply(dependency)
            elif dependency.depends is None:
                continue
            if not''')],
         demo=H + '''
seen = []


class T(autosar.xml.template.ElementTemplate):
    def create(self, package, workspace, dependencies, **kwargs):
        seen.append(dependencies)
        return ar_element.Unit(self.element_name)


ws = autosar.xml.workspace.Workspace()
ws.create_namespace("N", {"Unit": "Units"})
a = T("A", "N", ar_enum.PackageRole.UNIT)
ws.apply(T("B", "N", ar_enum.PackageRole.UNIT, [a]))
ws.apply(T("C", "N", ar_enum.PackageRole.UNIT, [a]))
assert list(seen[2]) == ["/N/Units/A"], seen
''', needs='two templates that depend on the same element', breaks='the second one is not given the element'),
    dict(id='B27', property='P17',
         edits=[(S, '''            if key == "base_ref":
                base_ref = value
''', '''            if key == "base_ref":
                base_ref = value.rstrip("/") or None
''')],
         demo=H + '''
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "config.toml")
    with open(p, "w") as f:
        f.write('[namespace.N]\\nbase_ref = "/"\\nUnit = "Units"\\n')
    ws = autosar.xml.workspace.Workspace(p)
    assert ws.get_package_ref_by_role("N", ar_enum.PackageRole.UNIT) == "/Units"
''', needs='a configured namespace with the root as its base', breaks='the packages are below the name of the namespace'),
]
