H = '''
import autosar.xml
import autosar.xml.element as ar_element
import autosar.xml.enumeration as ar_enum
import autosar.xml.workspace

p = autosar.xml.workspace.Workspace().make_packages("P")
p.root_collection().behavior_settings.update(
    {k: k[:-7] for k in vars(p.root_collection().behavior_settings) if k.endswith("_prefix")})


def put(x):
    p.append(x)
    return x


i = put(ar_element.SenderReceiverInterface("I"))
i.create_data_element("A")
j = put(ar_element.SenderReceiverInterface("J"))
j.create_data_element("A")
j.create_data_element("B")
s = put(ar_element.ApplicationSoftwareComponentType("C"))
b = s.create_internal_behavior("X")
r = b.create_runnable("R")


'''
E = 'xml/element.py'
BUGS = [
    dict(id='B33', property='P19',
         edits=[(E, """            elements = [elements]
        for elem in elements:
            if isinstance(elem, tuple):
                text, access""", """            elements = [elements]
        options = PortAccessOptions()
        for elem in elements:
            if isinstance(elem, tuple):
                text, access"""), (E, """            options = PortAccessOptions()
            parts = text""", """            parts = text""")],
         demo=H + '''
s.create_r_port("Q1", i)
s.create_r_port("Q2", i)
r.create_port_access(["READ:Q1", "Q2"])
assert len(r.data_read_access) == 1 and len(r.data_receive_point_by_argument) == 1
''', needs='an element without prefix after one with a prefix, in one call', breaks='it is accessed like the one before'),
    dict(id='B34', property='P19',
         edits=[(E, """        if len(parameter_name) == 0:
            if len""", """        if len(parameter_name) == 0 or parameter_name == port_interface.name:
            if len""")],
         demo=H + '''
k = put(ar_element.ParameterInterface("K"))
k.create_parameter("A")
s.create_r_port("Q", k)
try:
    r.create_port_access("Q/K")
except RuntimeError:
    pass
else:
    raise AssertionError()
''', needs='the name of the interface in place of the name of its parameter', breaks='a parameter that does not exist is accepted'),
    dict(id='B35', property='P19',
         edits=[(E, '''            for ref in mode_ref:
                if isinstance(ref, str):
                    if len(ref) == 0:
                        raise ValueError("mode_ref: Invalid argument. " + expected_formats)
''', '''            for ref in dict.fromkeys(mode_ref) if mode_ref[0] == mode_ref[1] else sorted(mode_ref, key=str, reverse=True):
                if isinstance(ref, str):
                    if len(ref) == 0:
                        raise ValueError("mode_ref: Invalid argument. " + expected_formats)
''')],
         demo=H + '''
g = put(ar_element.ModeDeclarationGroup("G"))
g.create_mode_declaration("M1")
g.create_mode_declaration("M2")
k = put(ar_element.ModeSwitchInterface("K"))
k.create_mode_group("mode", g.ref())
s.create_r_port("Q", k)
x = b.create_swc_mode_mode_switch_event("R", ("Q/M1", "Q/M2"))
assert [str(m.target_mode_declaration)[-2:] for m in x.mode] == ["M1", "M2"]
''', needs='a transition between modes whose names are in alphabetical order', breaks='the event is for the transition in the other direction'),
    dict(id='B36', property='P19',
         edits=[(E, '''                for area in self.exclusive_areas:
                    if area.name in names:
                        names[area.name] = True  # Marks it as handled
''', '''                for area in self.exclusive_areas:
                    if area.name in can_enter_leave:
                        names[area.name] = True  # Marks it as handled
''')],
         demo=H + '''
for n in ("Area", "Area2"):
    b.append_exclusive_area(ar_element.ExclusiveArea(n)) if hasattr(b, "append_exclusive_area") else b.create_exclusive_area(n)
assert len(b.create_runnable("S", can_enter_leave="Area2").can_enter_leave) == 1
''', needs='an exclusive area whose name is part of the name that is given', breaks='the runnable has both exclusive areas'),
    dict(id='B37', property='P19',
         edits=[(E, '''        event = TimingEvent(unique_event_name, runnable.ref(), period, offset, **kwargs)
''', '''        event = TimingEvent(unique_event_name, runnable.ref(), period or None, offset or None, **kwargs)
''')],
         demo=H + '''
assert b.create_timing_event("R", 1.0, 0).offset == 0
''', needs='an offset of 0', breaks='the offset is lost'),
    dict(id='B38', property='P19',
         edits=[(E, '''            if len(port_interface.operations) == 1:
                operation = port_interface.operations[0]
        else:
            for element in port_interface.operations:
                if element.name == operation_name:
                    operation = element
        if operation is None:
            raise RuntimeError''', '''            if len(port_interface.operations) == 1:
                operation = port_interface.operations[0]
        else:
            for element in port_interface.operations:
                if element.name == operation_name.partition("/")[0].rstrip("_"):
                    operation = element
        if operation is None:
            raise RuntimeError''')],
         demo=H + '''
k = put(ar_element.ClientServerInterface("K"))
k.create_operation("Get")
s.create_r_port("Q", k)
try:
    r.create_port_access("Q/Get_")
except RuntimeError:
    pass
else:
    raise AssertionError()
''', needs='the name of an operation that exists, with an underscore after it', breaks='an operation that does not exist is accepted'),
]
