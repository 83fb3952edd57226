H = '''
import autosar.xml
import autosar.xml.element as ar_element
import autosar.xml.enumeration as ar_enum
'''
E = 'xml/element.py'
BUGS = [
    dict(id='B49', property='P22',
         edits=[(E, """            mode_declaration.parent = self
            self.mode_declarations.append(mode_declaration)
""", """            mode_declaration.parent = self
            index = len(self.mode_declarations)
            while index > 0 and mode_declaration.value is not None and (self.mode_declarations[index - 1].value or 0) > mode_declaration.value:
                index -= 1
            self.mode_declarations.insert(index, mode_declaration)
""")],
         demo=H + '''
g = ar_element.ModeDeclarationGroup("G")
g.append_mode_declaratation(ar_element.ModeDeclaration("A", 5))
g.append_mode_declaratation(ar_element.ModeDeclaration("B", 2))
assert [m.name for m in g.mode_declarations] == ["A", "B"]
''', needs='a mode declaration with a lower value appended after one with a higher value', breaks='the appended mode declaration is not the last one'),
    dict(id='B50', property='P22',
         edits=[(E, """        if isinstance(possible_error, ApplicationError):
            possible_error.parent = self
            self.possible_errors.append(possible_error)
        else:
""", """        self.possible_errors.append(possible_error)
        if isinstance(possible_error, ApplicationError):
            possible_error.parent = self
        else:
""")],
         demo=H + '''
i = ar_element.ClientServerInterface("I")
try:
    i.append_possible_errors(ar_element.ApplicationErrorRef("/I/E"))
    raise SystemExit("accepted")
except TypeError:
    pass
assert i.possible_errors == []
''', needs='an appended part of a wrong kind, and a look at the list after the rejection', breaks='what is rejected is in the list all the same'),
    dict(id='B51', property='P22',
         edits=[(E, """            self.exclusive_areas.append(exclusive_area)
            exclusive_area.parent = self
""", """            self.exclusive_areas.append(exclusive_area)
            if exclusive_area.parent is None:
                exclusive_area.parent = self
""")],
         demo=H + '''
a, b = ar_element.InternalBehavior("A"), ar_element.InternalBehavior("B")
x = ar_element.ExclusiveArea("X")
a.append_exclusive_area(x)
b.append_exclusive_area(x)
assert x.parent is b
''', needs='an exclusive area that was part of another behaviour before', breaks='the parent of the part is the element it belonged to before'),
    dict(id='B52', property='P05',
         edits=[('xml/writer.py', """            if self.schema_version < 50:
                self._add_child("RUNS-INSIDE-EXCLUSIVE-AREA-REFS")""", """            if self.schema_version <= 50:
                self._add_child("RUNS-INSIDE-EXCLUSIVE-AREA-REFS")""")],
         demo=H + '''
r = ar_element.RunnableEntity("R", runs_insides="/A/X")
b = ar_element.SwcInternalBehavior("B", runnables=[r])
c = ar_element.ApplicationSoftwareComponentType("C", internal_behavior=b)
p = ar_element.Package("P")
p.append(c)
d = autosar.xml.Document([p], schema_version=50)
text = autosar.xml.Writer().write_str(d)
e = autosar.xml.Reader().read_str(text).packages[0].elements[0]
assert len(e.internal_behavior.runnables[0].runs_insides) == 1
''', needs='a document of schema version 50 with a runnable that runs inside an exclusive area', breaks='the exclusive areas of the runnable are missing after reading'),
    dict(id='B53', property='P05',
         edits=[('xml/reader.py', """                data["mode"] = (modes[0], modes[1])
""", """                data["mode"] = (modes[0], modes[1]) if str(modes[0].target_mode_declaration) != str(modes[1].target_mode_declaration) else modes[0]
""")],
         demo=H + """
def mode(port):
    return ar_element.RModeInAtomicSwcInstanceRef(
        ar_element.AbstractRequiredPortPrototypeRef("/C/" + port, ar_enum.IdentifiableSubTypes.R_PORT_PROTOTYPE),
        ar_element.ModeDeclarationGroupPrototypeRef("/I/G"), ar_element.ModeDeclarationRef("/G/RUN"))


e = ar_element.SwcModeSwitchEvent("E", mode=(mode("P"), mode("Q")))
got = autosar.xml.Reader().read_str_elem(autosar.xml.Writer().write_str_elem(e))
assert type(got.mode) is tuple and str(got.mode[1].context_port) == "/C/Q"
""", needs='an event with two modes that have the same mode declaration and differ in the port', breaks='one of the modes of the event is missing'),
]
