H = '''
import autosar.xml
import autosar.xml.element as ar_element
import autosar.xml.enumeration as ar_enum
from autosar.model import ImplementationModel
from autosar.generator import TypeGenerator

workspace = autosar.xml.Workspace()
p = workspace.make_packages("P")
P = ar_element.SwDataDefPropsConditional


def put(x):
    p.append(x)
    return x


def value(name, b, **kw):
    return put(ar_element.ImplementationDataType(name, category="VALUE", sw_data_def_props=P(base_type_ref=b.ref()), **kw))


def named(name, t, **kw):
    return put(ar_element.ImplementationDataType(name, category="TYPE_REFERENCE", sw_data_def_props=P(impl_data_type_ref=t.ref()), **kw))


def header(*types):
    m = ImplementationModel(workspace)
    for t in types:
        m.create_from_element(t)
    return TypeGenerator(m).write_type_defs_str()


b = put(ar_element.SwBaseType("B", native_declaration="int"))


'''
G = 'generator/type_generator.py'
M = 'model/implementation.py'
BUGS = [
    dict(id='B44', property='P21',
         edits=[(G, """        instance_refs = set()
        result = []
        for root_node in self.implementation.gen_type_dependency_trees():
            node: Node
""", """        result = []
        for root_node in self.implementation.gen_type_dependency_trees():
            instance_refs = set()
            node: Node
""")],
         demo=H + '''t = value("T", b)
text = header(named("U", t), named("V", t))
assert text.count("typedef B T;") == 1, text
''',
         needs='two types of the header that are made of the same type', breaks='the type they share is defined twice'),
    dict(id='B45', property='P21',
         edits=[(G, 'data_type.type_emitter.upper() != "RTE"', 'data_type.type_emitter not in ("", "RTE")')],
         demo=H + '''text = header(value("T", b, type_emitter="Rte"))
assert "typedef B T;" in text, text
''',
         needs='a type whose emitter RTE is not written in capitals', breaks='the type is missing in the header'),
    dict(id='B46', property='P21',
         edits=[(G, '''                target_type = C.type(element.data_type.impl_type.name)
            else:
                raise NotImplementedError(str(type(element.data_type)))
            members''', '''                target_type = C.type(element.data_type.impl_type.symbol_name)
            else:
                raise NotImplementedError(str(type(element.data_type)))
            members''')],
         demo=H + '''t = value("T", b, symbol_props=ar_element.SymbolProps("S", "X"))
e = ar_element.ImplementationDataTypeElement("E", category="TYPE_REFERENCE", sw_data_def_props=P(impl_data_type_ref=t.ref()))
text = header(put(ar_element.ImplementationDataType("R", category="STRUCTURE", sub_elements=[e])))
assert "typedef int X" in text or "X E" not in text, text
''',
         needs='a record with a member of a type that has a symbol', breaks='the member is of a type that is not defined'),
    dict(id='B47', property='P21',
         edits=[(M, "        if last_element.array_size_handling is not None:", "        elif last_element.array_size_handling is not None:")],
         demo=H + '''e = ar_element.ImplementationDataTypeElement("E", category="VALUE", sw_data_def_props=P(base_type_ref=b.ref()), array_size=3,
                                             array_impl_policy=ar_enum.ArrayImplPolicy.PAYLOAD_AS_ARRAY,
                                             array_size_handling=ar_enum.ArraySizeHandling.ALL_INDICES_SAME_ARRAY_SIZE)
a = put(ar_element.ImplementationDataType("A", category="ARRAY", sub_elements=[e]))
x = ImplementationModel(workspace).create_from_element(a)
assert x.sub_elements[0].size_handling is not None
''',
         needs='an array with an implementation policy and a size handling', breaks='the array has no size handling'),
    dict(id='B48', property='P21',
         edits=[(M, """            node: Node = que.popleft()
            result.append(node)
            for child in reversed(node.children):
                que.append(child)""", """            node: Node = que.popleft()
            if node.data in seen:
                continue
            seen.add(node.data)
            result.append(node)
            for child in reversed(node.children):
                que.append(child)"""), (M, """        result = []
        while que:""", """        result = []
        seen = set()
        while que:""")],
         demo=H + '''t = value("T", b)
u = named("U", t)
v = named("V", u)
e = [ar_element.ImplementationDataTypeElement("E%d" % i, category="TYPE_REFERENCE", sw_data_def_props=P(impl_data_type_ref=x.ref())) for i, x in enumerate((t, v))]
text = header(put(ar_element.ImplementationDataType("R", category="STRUCTURE", sub_elements=e)))
lines = text.split("\\n")
assert lines.index("typedef B T;") < lines.index("typedef T U;"), text
''',
         needs='a record that has a member of a type and a member of a type made of that type', breaks='a type is defined after the type that names it'),
]
