H = '''
import autosar.xml
import autosar.xml.element as ar_element
import autosar.xml.enumeration as ar_enum


'''
W, R, E, B, N = 'xml/writer.py', 'xml/reader.py', 'xml/element.py', 'xml/base.py', 'xml/enumeration.py'
BUGS = [
    dict(id='B09', property='P07',
         edits=[(W, '''        else:
            if content:
                text = f'<{tag}>{self._escape_text(content)}''', '''        else:
            if content.strip():
                text = f'<{tag}>{self._escape_text(content)}''')],
         demo=H + '''
e = ar_element.TextValueSpecification(value="  ")
text = autosar.xml.Writer().write_str_elem(e)
assert "<VALUE>  </VALUE>" in text, text
''', needs='a text that consists of white space only', breaks='texts of white space only are dropped from the document'),
    dict(id='B10', property='P07',
         edits=[(W, '''    def _str_open(self):
        self.fh = StringIO()
        self.line_number = 1
        self.indentation_level = 0
        self.indentation_str = ''
''', '''    def _str_open(self):
        self.fh = StringIO()
        self.indentation_level = 0
        self.indentation_str = ''
        self.line_number = self.line_number or 1
''')],
         demo=H + '''
import autosar.xml.document
import xml.dom.minidom
w = autosar.xml.Writer()
d = autosar.xml.document.Document()
d.append(ar_element.Package("A"))
xml.dom.minidom.parseString(w.write_str(d))
xml.dom.minidom.parseString(w.write_str(d))
''', needs='one writer that writes a second document', breaks='the second document starts with a line break before its XML declaration'),
    dict(id='B11', property='P08',
         edits=[(E, '''            if value.startswith("0x"):
                value_format = ar_enum.ValueFormat.HEXADECIMAL
            elif value.startswith("0b"):
                value_format = ar_enum.ValueFormat.BINARY
        self.value_format = value_format

    @property
    def value(self):
        """Value property"""
        return self._value

    @value.setter
    def value(self, value):
        self._value = self._validate_value(value)

    def _validate_value(self, value: Any) -> int | float | str:
''', '''            if value.startswith("0x"):
                value_format = ar_enum.ValueFormat.HEXADECIMAL
            elif value.startswith("0b"):
                value_format = ar_enum.ValueFormat.BINARY
        self.value_format = value_format

    @property
    def value(self):
        """Value property"""
        return self._value

    @value.setter
    def value(self, value):
        self._value = self._validate_value(value)

    def _validate_value(self, value: Any) -> int | float | str:
        if isinstance(value, float) and value.is_integer():
            value = int(value) & 0xFFFFFFFFFFFFFFFF if value >= 2.0**53 else value
''')],
         demo=H + '''
assert ar_element.NumericalValue(1e300).value == 1e300
''', needs='a float above 2**64', breaks='large floats lose their value'),
    dict(id='B12', property='P09',
         edits=[(N, '        "MULTICORE-REENTRANT": ReentrancyLevel.MULTICORE_REENTRANT,\n        "NON-REENTRANT": ReentrancyLevel.NON_REENTRANT,', '        "MULTICORE-REENTRANT": ReentrancyLevel.NON_REENTRANT,\n        "NON-REENTRANT": ReentrancyLevel.MULTICORE_REENTRANT,'),
                (N, '        "MULTICORE-REENTRANT",   # 0\n        "NON-REENTRANT",         # 1', '        "NON-REENTRANT",         # 0\n        "MULTICORE-REENTRANT",   # 1')],
         demo=H + '''
assert ar_enum.enum_to_xml(ar_enum.ReentrancyLevel.NON_REENTRANT) == "NON-REENTRANT"
''', needs='an enumeration whose two texts are exchanged in both directions: values still survive a round trip', breaks='ReentrancyLevel.NON_REENTRANT is written as MULTICORE-REENTRANT'),
    dict(id='B13', property='P10',
         edits=[('xml/reference.py', """                ar_enum.IdentifiableSubTypes.APPLICATION_DATA_TYPE,
                ar_enum.IdentifiableSubTypes.APPLICATION_DEFERRED_DATA_TYPE,
                ar_enum.IdentifiableSubTypes.APPLICATION_PRIMITIVE_DATA_TYPE,
                ar_enum.IdentifiableSubTypes.APPLICATION_RECORD_DATA_TYPE,
                ar_enum.IdentifiableSubTypes.AUTOSAR_DATA_TYPE,""", """                ar_enum.IdentifiableSubTypes.APPLICATION_DATA_TYPE,
                ar_enum.IdentifiableSubTypes.APPLICATION_PRIMITIVE_DATA_TYPE,
                ar_enum.IdentifiableSubTypes.APPLICATION_RECORD_DATA_TYPE,
                ar_enum.IdentifiableSubTypes.AUTOSAR_DATA_TYPE,""")],
         demo=H + '''
ar_element.AutosarDataTypeRef("/A/B", ar_enum.IdentifiableSubTypes.APPLICATION_DEFERRED_DATA_TYPE)
''', needs='a reference to a deferred application data type', breaks='the kind is rejected'),
    dict(id='B14', property='P11',
         edits=[(E, '''        self._assign_optional('category', category, str)
        self._assign_optional('uuid', uuid, str)
''', '''        self._assign_optional('category', category, str)
        self._assign_optional('uuid', uuid.strip() if isinstance(uuid, str) else uuid, str)
''')],
         demo=H + '''
assert ar_element.Unit("U", uuid="  a").uuid == "  a"
''', needs='a UUID text that begins or ends with white space', breaks='the UUID differs from the argument'),
    dict(id='B15', property='P12',
         edits=[(W, '''            if elem.max_text_size is not None:
                self._add_content('SW-MAX-TEXT-SIZE', str(elem.max_text_size))
            if elem.base_type_ref is not None:
                self._write_sw_base_type_ref(elem.base_type_ref)
            if elem.fill_char is not None:
                self._add_content('SW-FILL-CHARACTER', str(elem.fill_char))
''', '''            if elem.max_text_size is not None:
                self._add_content('SW-MAX-TEXT-SIZE', str(elem.max_text_size))
            if elem.fill_char is not None:
                self._add_content('SW-FILL-CHARACTER', str(elem.fill_char))
            if elem.base_type_ref is not None:
                self._write_sw_base_type_ref(elem.base_type_ref)
''')],
         demo=H + '''
e = ar_element.SwTextProps(base_type_ref=ar_element.SwBaseTypeRef("/A/B"), fill_char=32)
text = autosar.xml.Writer().write_str_elem(e)
assert text.index("BASE-TYPE-REF") < text.index("SW-FILL-CHARACTER"), text
''', needs='text properties that have a base type and a fill character', breaks='the two parts are written in the wrong order'),
    dict(id='B16', property='P13',
         edits=[(E, '''        if name in self._collection_map:
            raise ValueError(f"Package with name '{name}' already exists")
        package = Package(name, **kwargs)
        self._collection_map''', '''        if any(package.name == name for package in self.packages):
            raise ValueError(f"Package with name '{name}' already exists")
        package = Package(name, **kwargs)
        self._collection_map''')],
         demo=H + '''
p = ar_element.Package("P")
p.append(ar_element.Unit("X"))
try:
    p.create_package("X")
except ValueError:
    pass
else:
    raise AssertionError("name used twice")
''', needs='a package created with the name of an element of the same package', breaks='the element can no longer be found'),
    dict(id='B17', property='P13',
         edits=[(E, '''            package: Package = item
            if package.name in''', '''            package: Package = item
            package.parent = self
            if package.name in''')],
         demo=H + '''
a, b = ar_element.Package("A"), ar_element.Package("B")
x, y = ar_element.Package("X"), ar_element.Package("X")
a.append(x)
b.append(y)
try:
    b.append(x)
except Exception:
    pass
assert x.parent is a
''', needs='a package that is rejected by a second package because of its name', breaks='the rejected package gets another parent'),
    dict(id='B18', property='P14',
         edits=[(E, '''        if self.parent is None:
            return None
        ref_parts: list[str] = [self.name]
        self.parent.update_ref_parts(ref_parts)
        if ref_parts[-1] is None:
            return None
        return '/'.join(reversed(ref_parts))''', '''        if self.parent is None:
            return None
        cached = getattr(self, "_cached_ref", None)
        if cached is not None and cached[0] is self.parent:
            return cached[1]
        ref_parts: list[str] = [self.name]
        self.parent.update_ref_parts(ref_parts)
        if ref_parts[-1] is None:
            return None
        self._cached_ref = (self.parent, '/'.join(reversed(ref_parts)))
        return self._cached_ref[1]''')],
         demo=H + '''
import autosar.xml.document
d1, d2 = autosar.xml.document.Document(), autosar.xml.document.Document()
a, b = ar_element.Package("A"), ar_element.Package("B")
d1.append(a)
u = ar_element.Unit("U")
b.append(u)
a.append(b)
assert str(u.ref()) == "/A/B/U"
d2.append(b)
assert str(u.ref()) == "/B/U", u.ref()
''', needs='an element whose reference is taken, whose package is then moved elsewhere, and whose reference is taken again', breaks='the reference names the old place'),
    dict(id='B19', property='P15',
         edits=[(E, 'element.name = make_unique_name_in_list(self.data_write_access, element.name)', 'element.name = make_unique_name_in_list(self.data_read_access, element.name)')],
         demo=H + '''
V = ar_element.VariableAccess
r = ar_element.RunnableEntity("R", data_write_access=[V("A"), V("A")])
assert len({x.name for x in r.data_write_access}) == 2
''', needs='two write accesses of the same name', breaks='both keep the same name'),
    dict(id='B20', property='P15',
         edits=[(E, '        return make_unique_name_in_list(self.events, event_name)', '''        events = [event for event in self.events if event.name.startswith(event_name)]
        if len(events) < 2:
            return make_unique_name_in_list(events, event_name)
        return f"{event_name}_{len(events)}"''')],
         demo=H + '''
b = ar_element.SwcInternalBehavior("B", events=[ar_element.InitEvent("I"), ar_element.InitEvent("I_2")])
b.append_runnable(ar_element.RunnableEntity("R"))
b.create_init_event("R", "I")
assert len({x.name for x in b.events}) == 3, [x.name for x in b.events]
''', needs='a behavior with events named I and I_2 in which another event I is created', breaks='two events have the same name'),
]
