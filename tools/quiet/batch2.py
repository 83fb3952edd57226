"""Edits that change no behaviour, second batch: writers, readers, element constructors, ports, accesses, names."""
B, X, R, W, E, K, M, G = ("base.py", "xml/base.py", "xml/reader.py", "xml/writer.py", "xml/element.py",
                          "xml/workspace.py", "model/implementation.py", "generator/type_generator.py")
EDITS = [
    ("w1", W, """            for child_elem in elem.elements:
                if isinstance(child_elem, ar_element.MultiLanguageParagraph):
                    self._write_multi_language_paragraph(child_elem)
                elif isinstance(child_elem, ar_element.MultiLanguageVerbatim):
                    self._write_multi_language_verbatim(child_elem)
                else:
                    raise NotImplementedError(str(type(child_elem)))
            self._leave_child()""", """            writers = ((ar_element.MultiLanguageParagraph, self._write_multi_language_paragraph),
                       (ar_element.MultiLanguageVerbatim, self._write_multi_language_verbatim))
            for child_elem in elem.elements:
                write = next((w for c, w in writers if isinstance(child_elem, c)), None)
                if write is None:
                    raise NotImplementedError(str(type(child_elem)))
                write(child_elem)
            self._leave_child()"""),
    ("w2", W, """        attr: TupleList = []
        if elem.color is not None:
            attr.append(('COLOR', elem.color))
        if elem.font is not None:
            attr.append(('FONT', ar_enum.enum_to_xml(elem.font)))
        if elem.type is not None:
            attr.append(('TYPE', ar_enum.enum_to_xml(elem.type)))
        if len(attr) > 0:
            return attr
        return None""", """        def plain(value):
            return value
        attr = [(name, convert(value)) for name, value, convert in (('COLOR', elem.color, plain),
                                                                    ('FONT', elem.font, ar_enum.enum_to_xml),
                                                                    ('TYPE', elem.type, ar_enum.enum_to_xml))
                if value is not None]
        return attr or None"""),
    ("w3", W, """        if isinstance(value, tuple):
            for inner_value in value:
                if isinstance(inner_value, float):
                    content = self._format_float(inner_value)
                else:
                    content = str(inner_value)
                self._add_content('V', content)
        else:
            if isinstance(value, float):
                content = self._format_float(value)
            else:
                content = str(value)
            self._add_content('V', content)""", """        for number in value if isinstance(value, tuple) else (value,):
            self._add_content('V', self._format_float(number) if isinstance(number, float) else str(number))"""),
    ("w4", W, """        if elem.scale_constrs:
            self._add_child("SCALE-CONSTRS")
            for scale_constr in elem.scale_constrs:
                self._write_scale_constraint(scale_constr)
            self._leave_child()
        if elem.max_gradient is not None:
            self._add_content("MAX-GRADIENT", self._format_number(elem.max_gradient))
        if elem.max_diff is not None:
            self._add_content("MAX-DIFF", self._format_number(elem.max_diff))
        if elem.monotony""", """        if len(elem.scale_constrs) > 0:
            self._write_wrapped("SCALE-CONSTRS", elem.scale_constrs, self._write_scale_constraint)
        for tag, value in {"MAX-GRADIENT": elem.max_gradient, "MAX-DIFF": elem.max_diff}.items():
            if value is not None:
                self._add_content(tag, self._format_number(value))
        if elem.monotony"""),
    ("w4b", W, """    def _write_constraint_base(self,
""", """    def _write_wrapped(self, tag, elements, write_method):
        self._add_child(tag)
        for element in elements:
            write_method(element)
        self._leave_child()

    def _write_constraint_base(self,
"""),
    ("w5", W, """        if elem.is_empty:
            self._add_content(tag)
            return
        self._add_child(tag)
        if elem.level is not None:
            self._add_content("CONSTR-LEVEL", str(elem.level))
        if elem.physical is not None:
            self._write_physical_constraint(elem.physical)
        if elem.internal is not None:
            self._write_internal_constraint(elem.internal)
        self._leave_child()""", """        if not elem.is_empty:
            self._add_child(tag)
            if elem.level is not None:
                self._add_content("CONSTR-LEVEL", f"{elem.level}")
            if elem.physical is not None:
                self._write_physical_constraint(elem.physical)
            if elem.internal is not None:
                self._write_internal_constraint(elem.internal)
            self._leave_child()
        else:
            self._add_content(tag)"""),
    ("w6", W, """        for package in packages:
            self._write_package(package)
        self._leave_child()

    # AUTOSAR""", """        index = 0
        while index < len(packages):
            self._write_package(packages[index])
            index += 1
        self._leave_child()

    # AUTOSAR"""),
    ("w7", W, """        self._add_child('AR-PACKAGES')
        for sub_package in package.packages:
            self._write_package(sub_package)
        self._leave_child()""", """        self._write_packages(package.packages)"""),
    ("w8", W, """        if len(document.packages) > 0:
            self._write_packages(document.packages)
        self._leave_child()""", """        packages = document.packages
        if packages:
            self._write_packages(packages)
        self._leave_child()"""),
    ("r1", R, """        for xml_node in self.xml_root.findall('./AR-PACKAGES/*'):
            if xml_node.tag == 'AR-PACKAGE':
                package = self._read_package(xml_node)
                self.document.append(package)""", """        for xml_node in self.xml_root.findall('./AR-PACKAGES/AR-PACKAGE'):
            self.document.append(self._read_package(xml_node))"""),
    ("r2", R, """        for xml_child in xml_elem.findall('./ANNOTATION'):
            elements.append(self._read_annotation(xml_child))
        return elements""", """        elements.extend(self._read_annotation(xml_child) for xml_child in xml_elem.findall('ANNOTATION'))
        return elements"""),
    ("r3", R, """        if xml_label is not None:
            data['label'] = self._read_multi_language_long_name(xml_label)
        if xml_origin is not None:
            data['origin'] = xml_origin.text
        if xml_text is not None:
            data['text'] = self._read_documentation_block(xml_text)""", """        data.update({key: read(xml_child) for key, xml_child, read in (
            ('label', xml_label, self._read_multi_language_long_name),
            ('origin', xml_origin, lambda xml_child: xml_child.text),
            ('text', xml_text, self._read_documentation_block)) if xml_child is not None})"""),
    ("r4", R, """        for xml_child_elem in xml_elem.findall('./*'):
            if xml_child_elem.tag == 'E':
                elem.append(self._read_emphasis_text(xml_child_elem))
            elif xml_child_elem.tag == 'IE':
                elem.append(self._read_index_entry(xml_child_elem))
            elif xml_child_elem.tag == 'SUB':
                elem.append(self._read_subscript(xml_child_elem))
            elif xml_child_elem.tag == 'SUP':
                elem.append(self._read_superscript(xml_child_elem))
            elif xml_child_elem.tag == 'TT':
                elem.append(self._read_technical_term(xml_child_elem))
            else:
                self._raise_parse_error(
                    xml_child_elem, f"Invalid element: <{xml_child_elem.tag}>")
            if xml_child_elem.tail:
                elem.append(xml_child_elem.tail)

    def _read_multi_language_overview_paragraph(""", """        readers = {'E': self._read_emphasis_text, 'IE': self._read_index_entry, 'SUB': self._read_subscript,
                   'SUP': self._read_superscript, 'TT': self._read_technical_term}
        for xml_child_elem in xml_elem.findall('./*'):
            reader = readers.get(xml_child_elem.tag)
            if reader is None:
                self._raise_parse_error(xml_child_elem, f"Invalid element: <{xml_child_elem.tag}>")
            elem.append(reader(xml_child_elem))
            if xml_child_elem.tail:
                elem.append(xml_child_elem.tail)

    def _read_multi_language_overview_paragraph("""),
    ("r5", R, """        interval_type = xml_element.attrib.get("INTERVAL-TYPE")
        if interval_type is not None:
            interval_type = ar_enum.xml_to_enum("IntervalType", interval_type)
        else:
            # If the attribute is missing the interval shall be considered as "CLOSED"
            interval_type = ar_enum.IntervalType.CLOSED
        limit = self._read_number(xml_element.text)
        return limit, interval_type""", """        limit = self._read_number(xml_element.text)
        # If the attribute is missing the interval shall be considered as "CLOSED"
        interval_type = ar_enum.xml_to_enum("IntervalType", xml_element.attrib.get("INTERVAL-TYPE", "CLOSED"))
        return (limit, interval_type)"""),
    ("r6", R, """        xml_child = child_elements.get("LOWER-LIMIT")
        if xml_child is not None:
            limit, interval_type = self._read_limit(xml_child)
            data["lower_limit"] = limit
            data["lower_limit_type"] = interval_type
        xml_child = child_elements.get("UPPER-LIMIT")
        if xml_child is not None:
            limit, interval_type = self._read_limit(xml_child)
            data["upper_limit"] = limit
            data["upper_limit_type"] = interval_type
        xml_child = child_elements.get("COMPU-INVERSE""", """        for side in ("lower", "upper"):
            xml_child = child_elements.get(side.upper() + "-LIMIT")
            if xml_child is not None:
                data[side + "_limit"], data[f"{side}_limit_type"] = self._read_limit(xml_child)
        xml_child = child_elements.get("COMPU-INVERSE"""),
    ("r7", R, """        values = []
        for xml_child in xml_element.findall('./V'):
            num_val = ar_element.NumericalValue(xml_child.text)
            values.append(num_val.value)
        return tuple(values)""", """        return tuple(ar_element.NumericalValue(xml_child.text).value for xml_child in xml_element.findall('./V'))"""),
    ("r8", R, """        for key in self.xml_root.attrib.keys():
            if key.endswith('schemaLocation'):
                match = re.search(r'AUTOSAR_(\\d+).xsd',
                                  self.xml_root.attrib[key])
                if match is not None:
                    self.schema_file = 'AUTOSAR_' + match.group(1) + '.xsd'
                    self.schema_version = int(match.group(1))""", """        for key, value in self.xml_root.attrib.items():
            if not key.endswith('schemaLocation'):
                continue
            match = re.search(r'AUTOSAR_(\\d+).xsd', value)
            if match:
                version = match.group(1)
                self.schema_version = int(version)
                self.schema_file = f'AUTOSAR_{version}.xsd'"""),
    ("r9", R, """            read_method = self.switcher_collectable.get(
                xml_child_elem.tag, None)
            if read_method is not None:
                try:
                    element = read_method(xml_child_elem)
                    assert isinstance(element, ar_element.ARElement)
                    package.append(element)
                except""", """            read_method = self.switcher_collectable.get(xml_child_elem.tag)
            if read_method:
                try:
                    self._append_element(package, read_method(xml_child_elem))
                except"""),
    ("r9b", R, """    def _read_sub_packages(self, package""", """    @staticmethod
    def _append_element(package: ar_element.Package, element: Any) -> None:
        assert isinstance(element, ar_element.ARElement)
        package.append(element)

    def _read_sub_packages(self, package"""),
    ("r10", R, """        if type_name is not None:
            read_method = self._switcher_type_name.get(type_name, None)
        else:
            read_method = self.switcher_all.get(elem.tag, None)
        if read_method is not None:
            return read_method(elem)
        else:
            raise NotImplementedError(f"Found no reader for '{elem.tag}'")""", """        switcher, key = (self.switcher_all, elem.tag) if type_name is None else (self._switcher_type_name, type_name)
        try:
            read_method = switcher[key]
        except KeyError:
            raise NotImplementedError(f"Found no reader for '{elem.tag}'") from None
        return read_method(elem)"""),
    ("r11", R, """        if (v_xml is not None) and (vt_xml is not None):
            raise ar_exception.ParseError("Can't define both V and VT"
                                          "in the same COMPU-CONST element")
        if v_xml is not None:
            value = self._read_number(v_xml.text)
        elif vt_xml is not None:
            value = vt_xml.text
        else:
            raise ar_exception.ParseError("COMPU-CONST without value isn't supported")
        return ar_element.CompuConst(value)""", """        if v_xml is None and vt_xml is None:
            raise ar_exception.ParseError("COMPU-CONST without value isn't supported")
        if v_xml is None:
            return ar_element.CompuConst(vt_xml.text)
        if vt_xml is not None:
            raise ar_exception.ParseError("Can't define both V and VT"
                                          "in the same COMPU-CONST element")
        return ar_element.CompuConst(self._read_number(v_xml.text))"""),
    ("e1", E, """        if annotations is not None:
            for annotation in annotations if isinstance(annotations, list) else [annotations]:
                if not isinstance(annotation, Annotation):
                    raise TypeError(f"Invalid type for argument 'annotations': {str(type(annotation))}")
                self.annotations.append(annotation)""", """        if annotations is not None:
            if not isinstance(annotations, list):
                annotations = [annotations]
            for annotation in annotations:
                if isinstance(annotation, Annotation):
                    self.annotations.append(annotation)
                else:
                    raise TypeError(f"Invalid type for argument 'annotations': {str(type(annotation))}")"""),
    ("e2", E, """            if isinstance(desc, MultiLanguageOverviewParagraph):
                self.desc = desc
            elif isinstance(desc, str):
                self.desc = MultiLanguageOverviewParagraph.make(ar_enum.Language.FOR_ALL, desc)
            elif isinstance(desc, tuple) and len(desc) == 2:
                self.desc = MultiLanguageOverviewParagraph.make(*desc)
            else:
                raise TypeError(f"Invalid type for argument 'desc': {str(type(desc))}")
        self._assign_optional('category'""", """            if isinstance(desc, str):
                desc = (ar_enum.Language.FOR_ALL, desc)
            if isinstance(desc, tuple) and len(desc) == 2:
                language, text = desc
                desc = MultiLanguageOverviewParagraph.make(language, text)
            if not isinstance(desc, MultiLanguageOverviewParagraph):
                raise TypeError(f"Invalid type for argument 'desc': {str(type(desc))}")
            self.desc = desc
        self._assign_optional('category'"""),
    ("e3", E, """        if self.parent is None:
            return None
        ref_parts: list[str] = [self.name]
        self.parent.update_ref_parts(ref_parts)
        if ref_parts[-1] is None:
            return None
        return '/'.join(reversed(ref_parts))""", """        ref_parts: list[str] = [self.name]
        if self.parent is not None:
            self.parent.update_ref_parts(ref_parts)
            if ref_parts[-1] is not None:
                return '/'.join(ref_parts[::-1])
        return None"""),
    ("e4", E, """    for element in elements:
        result = expr.fullmatch(element.name)
        if result is not None:
            has_index = True
            index = int(result.group(1))
            highest_index = max(highest_index, index)
            if element.name == base_name + '_0':
                has_zero_index = True
        elif element.name == base_name:
            unpatched_elem = element""", """    for element in elements:
        if element.name == base_name:
            unpatched_elem = element
            continue
        result = expr.fullmatch(element.name)
        if result is None:
            continue
        has_index = True
        has_zero_index = has_zero_index or element.name == f"{base_name}_0"
        index = int(result.group(1))
        if index > highest_index:
            highest_index = index"""),
    ("e5", E, """    if unpatched_elem is not None:
        if has_zero_index:
            highest_index += 1
            unpatched_elem.name = '_'.join([base_name, str(highest_index)])
        else:
            unpatched_elem.name = '_'.join([base_name, '0'])
    if has_index or unpatched_elem is not None:
        return '_'.join([base_name, str(highest_index + 1)])
    else:
        return base_name""", """    if unpatched_elem is None and not has_index:
        return base_name
    if unpatched_elem is not None:
        highest_index += 1 if has_zero_index else 0
        unpatched_elem.name = f"{base_name}_{highest_index if has_zero_index else 0}"
    return f"{base_name}_{highest_index + 1}"
"""),
    ("e6", E, """        for port in self.ports:
            if isinstance(port, ProvidePortPrototype):
                yield port""", """        yield from filter(lambda port: isinstance(port, ProvidePortPrototype), self.ports)"""),
    ("e7", E, """        parts = ref.partition('/')
        for elem in self.ports:
            if elem.name == parts[0]:
                return elem
        return None""", """        name = ref.split('/')[0]
        for elem in self.ports:
            if elem.name == name:
                break
        else:
            elem = None
        return elem"""),
    ("e8", E, """        if ports is not None:
            if isinstance(ports, PortPrototype):
                self.append_port(ports)
            elif isinstance(ports, list):
                for port in ports:
                    self.append_port(port)
            else:
                msg_part_1""", """        if ports is not None:
            if isinstance(ports, (list, PortPrototype)):
                for port in ports if isinstance(ports, list) else [ports]:
                    self.append_port(port)
            else:
                msg_part_1"""),
    ("e9", E, """        if text == 'ASYNC':
            options.call = ar_enum.CallPoint.ASYNC
        elif text == "SYNC":
            options.call = ar_enum.CallPoint.SYNC
        elif text in ["READ", "WRITE"]:
            options.access = ar_enum.PortAccess.IMPLICIT
        elif text in ["ARGUMENT", "ARG"]:
            options.access = ar_enum.PortAccess.EXPLICIT
            options.result = ar_enum.ReadResult.BY_ARGUMENT
        elif text in ["VALUE", "VAL"]:
            options.access = ar_enum.PortAccess.EXPLICIT
            options.result = ar_enum.ReadResult.BY_VALUE
        elif text == "SEND":
            options.access = ar_enum.PortAccess.EXPLICIT
        elif text == "ACCESS":
            options.mode = ar_enum.ModeAccess.ACCESS
        elif text == "SWITCH":
            options.mode = ar_enum.ModeAccess.SWITCH
        else:
            raise ValueError(f"Unrecognized access option: '{text}'")""", """        match text:
            case "ASYNC":
                options.call = ar_enum.CallPoint.ASYNC
            case "SYNC":
                options.call = ar_enum.CallPoint.SYNC
            case "READ" | "WRITE":
                options.access = ar_enum.PortAccess.IMPLICIT
            case "ARGUMENT" | "ARG" | "VALUE" | "VAL" | "SEND":
                options.access = ar_enum.PortAccess.EXPLICIT
                if text.startswith("A"):
                    options.result = ar_enum.ReadResult.BY_ARGUMENT
                elif text != "SEND":
                    options.result = ar_enum.ReadResult.BY_VALUE
            case "ACCESS" | "SWITCH":
                options.mode = ar_enum.ModeAccess[text]
            case _:
                raise ValueError(f"Unrecognized access option: '{text}'")"""),
    ("e10", E, """        data_element = None
        if len(element_name) == 0:
            if len(port_interface.data_elements) == 1:
                data_element = port_interface.data_elements[0]
        else:
            for element in port_interface.data_elements:
                if element.name == element_name:
                    data_element = element
        if data_element is None:
            raise RuntimeError(f"Unable to find a matching data element '{element_name}' \"""", """        candidates = [element for element in port_interface.data_elements if not element_name or element.name == element_name]
        data_element = None
        if candidates and (element_name or len(candidates) == 1):
            data_element = candidates[-1]
        if data_element is None:
            raise RuntimeError(f"Unable to find a matching data element '{element_name}' \""""),
    ("e11", E, """        if isinstance(port, RequirePortPrototype):
            if access_type == ar_enum.PortAccess.IMPLICIT:
                if name is None:
                    name = "_".join([settings.get_value("data_read_access_prefix"), port.name, data_element.name])
                variable_access = VariableAccess.make_from_port_with_args(name, port.ref(), data_element.ref(),
                                                                          access_point_args)
                self.append_data_read_access(variable_access)
            else:
                if name is None:
                    name = "_".join([settings.get_value("data_receive_point_prefix"), port.name, data_element.name])
                variable_access = VariableAccess.make_from_port_with_args(name, port.ref(), data_element.ref(),
                                                                          access_point_args)
                if result_type == ar_enum.ReadResult.BY_VALUE:
                    self.append_data_receive_point_by_value(variable_access)
                else:
                    self.append_data_receive_point_by_argument(variable_access)
        elif isinstance(port, ProvidePortPrototype):
            if access_type == ar_enum.PortAccess.IMPLICIT:
                if name is None:
                    name = "_".join([settings.get_value("data_write_access_prefix"), port.name, data_element.name])
                variable_access = VariableAccess.make_from_port_with_args(name, port.ref(), data_element.ref(),
                                                                          access_point_args)
                self.append_data_write_access(variable_access)
            else:
                if name is None:
                    name = "_".join([settings.get_value("data_send_point_prefix"), port.name, data_element.name])
                variable_access = VariableAccess.make_from_port_with_args(name, port.ref(), data_element.ref(),
                                                                          access_point_args)
                self.append_data_send_point(variable_access)
        else:
            raise TypeError(f"Type not supported: {str(type(port))}")""", """        is_implicit = access_type == ar_enum.PortAccess.IMPLICIT
        if isinstance(port, RequirePortPrototype):
            if is_implicit:
                prefix, append = "data_read_access_prefix", self.append_data_read_access
            elif result_type == ar_enum.ReadResult.BY_VALUE:
                prefix, append = "data_receive_point_prefix", self.append_data_receive_point_by_value
            else:
                prefix, append = "data_receive_point_prefix", self.append_data_receive_point_by_argument
        elif isinstance(port, ProvidePortPrototype):
            prefix = "data_write_access_prefix" if is_implicit else "data_send_point_prefix"
            append = self.append_data_write_access if is_implicit else self.append_data_send_point
        else:
            raise TypeError(f"Type not supported: {str(type(port))}")
        if name is None:
            name = f"{settings.get_value(prefix)}_{port.name}_{data_element.name}"
        append(VariableAccess.make_from_port_with_args(name, port.ref(), data_element.ref(), access_point_args))"""),
    ("e12", E, """                com_spec_list = []
                unprocessed = set()
                for operation_name in kwargs:
                    unprocessed.add(operation_name)
                for operation in port_interface.operations:
                    if operation.name in unprocessed:
                        unprocessed.remove(operation.name)
                        com_spec_args = kwargs[operation.name]
                        com_spec = ServerComSpec(operation_ref=operation.ref(), **com_spec_args)
                        com_spec_list.append(com_spec)
                if len(unprocessed) > 0:""", """                com_spec_list = []
                unprocessed = set(kwargs)
                for operation in port_interface.operations:
                    if operation.name not in unprocessed:
                        continue
                    unprocessed.discard(operation.name)
                    com_spec_list.append(ServerComSpec(operation_ref=operation.ref(), **kwargs[operation.name]))
                if unprocessed:"""),
    ("e13", E, """        if hasattr(self, name):
            if not isinstance(value, str):
                raise TypeError(f"value: Expected string type. Got {str(type(value))}")
            setattr(self, name, value)
        else:
            raise KeyError(f"name: Invalid name '{name}'")""", """        if not hasattr(self, name):
            raise KeyError(f"name: Invalid name '{name}'")
        if not isinstance(value, str):
            raise TypeError(f"value: Expected string type. Got {str(type(value))}")
        setattr(self, name, value)"""),
    ("e14", E, """        mode_group = None
        if len(mode_group_name) != 0:
            if port_interface.mode_group is not None and mode_group_name == port_interface.mode_group.name:
                mode_group = port_interface.mode_group
        else:
            mode_group = port_interface.mode_group
        if mode_group is None:""", """        mode_group = port_interface.mode_group
        if mode_group is not None and mode_group_name not in ("", mode_group.name):
            mode_group = None
        if mode_group is None:"""),
    ("e15", E, """        if name is None:
            name = "_".join([settings.get_value("parameter_access_prefix"),
                            port.name,
                            target_data.name])
        if access_point_args is not None:
            parameter_access = ParameterAccess(name,
                                               AutosarParameterRef(autosar_parameter=parameter_iref),
                                               **access_point_args)
        else:
            parameter_access = ParameterAccess(name, AutosarParameterRef(autosar_parameter=parameter_iref))
        self.append_parameter_access(parameter_access)""", """        if name is None:
            name = "_".join([settings.get_value("parameter_access_prefix"), port.name, target_data.name])
        parameter_ref = AutosarParameterRef(autosar_parameter=parameter_iref)
        self.append_parameter_access(ParameterAccess(name, parameter_ref, **(access_point_args or {})))"""),
    ("k1", K, """        if template.depends is not None:
            depends_map = self._create_dependencies(template.depends)
        else:
            depends_map = None
        package_ref""", """        depends_map = None if template.depends is None else self._create_dependencies(template.depends)
        package_ref"""),
    ("k2", K, """        item_map = {}
        for dependency in dependencies:
            elem = self.apply(dependency)
            if not isinstance(elem, ar_element.ARElement):
                raise TypeError(f"{str(type(elem))}: Class is not an ARElement")
            if not hasattr(elem, "ref"):
                raise NotImplementedError(f"{str(type(elem))}: Class is missing its ref method")
            item_map[str(elem.ref())] = elem
        return item_map""", """        def item(dependency: ar_template.TemplateBase) -> tuple:
            elem = self.apply(dependency)
            if not isinstance(elem, ar_element.ARElement):
                raise TypeError(f"{str(type(elem))}: Class is not an ARElement")
            if not hasattr(elem, "ref"):
                raise NotImplementedError(f"{str(type(elem))}: Class is missing its ref method")
            return str(elem.ref()), elem
        return dict(map(item, dependencies))"""),
    ("k3", K, """        for role_name, rel_path in package_map.items():
            if role_name.startswith("!"):
                package_role = role_name[1:]
            else:
                package_role = ar_enum.str_to_package_role(role_name)
            abs_path = posixpath.join(self.base_ref, rel_path)
            self.package_map[package_role] = abs_path""", """        for role_name in package_map:
            is_custom = role_name[:1] == "!"
            package_role = role_name[1:] if is_custom else ar_enum.str_to_package_role(role_name)
            self.package_map[package_role] = posixpath.join(self.base_ref, package_map[role_name])"""),
    ("k4", K, """        if isinstance(package_refs, str):
            self.package_refs.append(package_refs)
        elif package_refs is not None:
            for package_ref in package_refs:
                assert isinstance(package_ref, str)
                self.package_refs.append(package_ref)""", """        if package_refs is None:
            package_refs = []
        elif isinstance(package_refs, str):
            package_refs = [package_refs]
        for package_ref in package_refs:
            assert isinstance(package_ref, str)
            self.package_refs += [package_ref]"""),
    ("k5", K, """            element_map = {}
            type_matched_elements = {}
            for element in package.elements:
                element_map[element.name] = element
                if isinstance(element, mapping.element_types):
                    type_matched_elements[element.name] = element""", """            element_map = {element.name: element for element in package.elements}
            type_matched_elements = {name: element for name, element in element_map.items()
                                     if isinstance(element, mapping.element_types)}"""),
    ("m1", M, """        symbol = None
        if element.symbol_props is not None:
            symbol = element.symbol_props.symbol
        data_type = rte_element.ArrayType(""", """        symbol = element.symbol_props.symbol if element.symbol_props else None
        data_type = rte_element.ArrayType("""),
    ("g1", G, """        code.append(C.ifndef(include_guard))
        code.append(C.define(include_guard))
        code.append(C.blank())
        code.append(C.ifdef("__cplusplus"))""", """        for item in (C.ifndef(include_guard), C.define(include_guard), C.blank()):
            code.append(item)
        code.append(C.ifdef("__cplusplus"))"""),
]
