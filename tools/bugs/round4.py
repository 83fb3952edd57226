H = '''
import autosar.xml
import autosar.xml.element as ar_element
import autosar.xml.enumeration as ar_enum
import autosar.xml.workspace

p = autosar.xml.workspace.Workspace().make_packages("P")


def put(x):
    p.append(x)
    return x


'''
E = 'xml/element.py'
BUGS = [
    dict(id='B28', property='P18',
         edits=[(E, '''                        com_spec_args = kwargs[data_element.name]
                        if data_element.is_queued:
                            com_spec = QueuedSenderComSpec(''', '''                        com_spec_args = kwargs[data_element.name]
                        if port_interface.data_elements[0].is_queued:
                            com_spec = QueuedSenderComSpec(''')],
         demo=H + '''
i = put(ar_element.SenderReceiverInterface("I"))
i.create_data_element("A")
q = ar_element.SwDataDefProps(ar_element.SwDataDefPropsConditional(impl_policy=ar_enum.SwImplPolicy.QUEUED))
i.create_data_element("B").sw_data_def_props = q
port = put(ar_element.ApplicationSoftwareComponentType("C")).create_p_port("Q", i, [("A", {}), ("B", {})])
assert isinstance(port.com_spec[0], ar_element.NonqueuedSenderComSpec)
assert isinstance(port.com_spec[1], ar_element.QueuedSenderComSpec)
''', needs='an interface that has both queued and unqueued data elements', breaks='the class of a communication specification does not fit its data element'),
    dict(id='B29', property='P18',
         edits=[(E, '''                for elem in self.components:
                    if elem.name == parts[0]:
''', '''                for elem in self.components:
                    if parts[0] in (elem.name, str(elem.type_ref).rpartition("/")[2]):
''')],
         demo=H + '''
i = put(ar_element.SenderReceiverInterface("I"))
i.create_data_element("A")
one, two = put(ar_element.ApplicationSoftwareComponentType("One")), put(ar_element.ApplicationSoftwareComponentType("Two"))
one.create_p_port("X", i)
two.create_p_port("X", i)
c = put(ar_element.CompositionSwComponentType("Comp"))
c.create_p_port("Y", i)
c.create_component_prototype(one, "Two")
c.create_component_prototype(two, "One")
c.create_connector("One/X", "Y", p.root_collection())
assert str(c.connectors[0].inner_port.port_ref) == "/P/Two/X" if hasattr(c.connectors[0].inner_port, "port_ref") else True
assert str(c.connectors[0].inner_port.component_ref) == "/P/Comp/One"
''', needs='a component named like the type of a component before it', breaks='the connector joins another component'),
    dict(id='B30', property='P18',
         edits=[(E, '''            if not data_element_name:
                if not len(port_interface.data_elements) == 1:
                    msg = "data_element_name: Undefined value is not allowed when "\\
                          "the port interface has more than one data element"
                    raise ValueError(msg)
                return port_interface.data_elements[0]
''', '''            if len(port_interface.data_elements) == 1:
                return port_interface.data_elements[0]
            if not data_element_name:
                msg = "data_element_name: Undefined value is not allowed when "\\
                      "the port interface has more than one data element"
                raise ValueError(msg)
''')],
         demo=H + '''
i = put(ar_element.SenderReceiverInterface("I"))
i.create_data_element("A")
c = put(ar_element.ApplicationSoftwareComponentType("C"))
try:
    x = c.get_data_element_in_port(c.create_p_port("Q", i), "B")
except ValueError:
    x = None
assert x is None
''', needs='an interface with a single data element, asked for another', breaks='a part that the interface does not have is found'),
    dict(id='B31', property='P18',
         edits=[(E, '''        port = RequirePortPrototype(name, port_interface.ref(), com_spec, allow_unconnected, **kwargs)
''', '''        port = RequirePortPrototype(name, port_interface.ref(), com_spec, allow_unconnected or None, **kwargs)
''')],
         demo=H + '''
i = put(ar_element.SenderReceiverInterface("I"))
c = put(ar_element.ApplicationSoftwareComponentType("C"))
assert c.create_r_port("Q", i, None, False).allow_unconnected is False
''', needs='a require-port that explicitly must be connected', breaks='the setting is lost'),
    dict(id='B32', property='P18',
         edits=[(E, '''        Convenience method for creating NonqueuedReceiverComSpec
        """
        init_value = ValueSpecification.make_value_with_check(init_value)
''', '''        Convenience method for creating NonqueuedReceiverComSpec
        """
        init_value = ValueSpecification.make_value_with_check(init_value) if init_value else None
''')],
         demo=H + '''
i = put(ar_element.SenderReceiverInterface("I"))
i.create_data_element("A")
c = put(ar_element.ApplicationSoftwareComponentType("C"))
assert c.create_r_port("Q", i, {"init_value": 0}).com_spec[0].init_value.value == 0
''', needs='the initial value 0', breaks='the receiver has no initial value'),
]
