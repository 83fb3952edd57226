"""Edits that change no behaviour, first batch: base, reader and writer helpers, packages, workspace, model."""
B, X, R, W, E, K, M, G = ("base.py", "xml/base.py", "xml/reader.py", "xml/writer.py", "xml/element.py",
                          "xml/workspace.py", "model/implementation.py", "generator/type_generator.py")
EDITS = [
    ("b1", B, """        return ref[1:].split(sep) if ref[0] == sep else ref.split(sep)
    return None""", """        text = ref
        if text[0] == sep:
            text = text[1:]
        return text.split(sep)
    else:
        return None"""),
    ("b2", B, """    if len(ref) == 0:
        raise ValueError("String cannot be empty")
    if ref[0] == sep:""", """    if not ref:
        raise ValueError("String cannot be empty")
    if ref.startswith(sep):"""),
    ("x1", X, """        for value in vars(self).values():
            if isinstance(value, list):
                if len(value) > 0:
                    return False
            else:
                if value is not None:
                    return False
        return True

    def is_empty_with""", """        return not any(self._has_content(value) for value in vars(self).values())

    @staticmethod
    def _has_content(value: Any) -> bool:
        return len(value) > 0 if isinstance(value, list) else value is not None

    def is_empty_with"""),
    ("x2", X, """        for key in vars(self).keys():
            if key not in ignore_set:
                value = getattr(self, key)
                if isinstance(value, list):
                    if len(value) > 0:
                        return False
                else:
                    if value is not None:
                        return False
        return True""", """        for key, value in vars(self).items():
            if key in ignore_set:
                continue
            if isinstance(value, list):
                if value:
                    return False
            elif value is not None:
                return False
        return True"""),
    ("x3", X, """        if value is not None:
            self._assign(attr_name, value, type_name)""", """        if value is None:
            return
        self._assign(attr_name, value, type_name)"""),
    ("x4", X, """        if isinstance(value, int):
            pass
        elif isinstance(value, str):
            match = pattern.match(value)
            if match is None:
                raise ValueError(f"Invalid parameter '{value}' for '{attr_name}'")
        else:
            raise""", """        if isinstance(value, str):
            if not pattern.match(value):
                raise ValueError(f"Invalid parameter '{value}' for '{attr_name}'")
        elif not isinstance(value, int):
            raise"""),
    ("x5", X, """        if isinstance(value, type_class):
            setattr(self, attr_name, value)
        else:
            raise TypeError(
                f"Invalid type for parameter '{attr_name}'. Expected type {str(type_class)}, got {str(type(value))}")""",
     """        if not isinstance(value, type_class):
            raise TypeError(
                f"Invalid type for parameter '{attr_name}'. Expected type {str(type_class)}, got {str(type(value))}")
        setattr(self, attr_name, value)"""),
    ("x6", X, """            if len(accepted_sub_types) == 1:
                new_value = ref_type(value, list(accepted_sub_types)[0])
            else:
                raise TypeError("Ambig""", """            if len(accepted_sub_types) == 1:
                (dest,) = accepted_sub_types
                new_value = ref_type(value, dest)
            else:
                raise TypeError("Ambig"""),
    ("x7", X, """        for elem in elements:
            if elem.name == name:
                return elem
        return None""", """        return next((elem for elem in elements if elem.name == name), None)"""),
    ("x8", X, """        if type_class in {bool, int, str, float}:
            new_value = type_class(value)
        else:
            raise NotImplementedError(type_class)
        setattr(self, attr_name, new_value)""", """        if type_class not in (bool, int, str, float):
            raise NotImplementedError(type_class)
        setattr(self, attr_name, type_class(value))"""),
    ("r1", R, """            tag = str(child_elem.tag)
            if tag not in self.elements:
                self.elements[tag] = WrappedElement(child_elem)""", """            self.elements.setdefault(str(child_elem.tag), WrappedElement(child_elem))"""),
    ("r2", R, """        wrapped = self.elements.get(tag, None)
        if wrapped is not None:
            return wrapped.elem
        return None""", """        if tag not in self.elements:
            return None
        return self.elements[tag].elem"""),
    ("r3", R, """        if value in ('0', 'false'):
            return False
        elif value in ('1', 'true'):
            return True
        else:
            raise ar_exception.ParseError('Not a boolean value: ' + str(value))""",
     """        result = {'0': False, 'false': False, '1': True, 'true': True}.get(value)
        if result is None:
            raise ar_exception.ParseError(f'Not a boolean value: {value}')
        return result"""),
    ("r4", R, """        for xml_elem in [x.elem for x in xml_elements.values() if not x.is_accessed]:
            assert xml_elem is not None
            self._report_unprocessed_element(xml_elem)""", """        for wrapped in xml_elements.values():
            if wrapped.is_accessed:
                continue
            xml_elem = wrapped.elem
            assert xml_elem is not None
            self._report_unprocessed_element(xml_elem)"""),
    ("r5", R, """        try:
            value = int(text)
        except ValueError:
            try:
                value = ar_element.NumericalValue(text).value  # Hexadecimal, binary or float
            except ValueError as exc:
                raise ar_exception.ParseError(f"Not a number: {text}") from exc
        return value""", """        try:
            return int(text)
        except ValueError:
            pass
        try:
            return ar_element.NumericalValue(text).value  # Hexadecimal, binary or float
        except ValueError as exc:
            raise ar_exception.ParseError(f"Not a number: {text}") from exc"""),
    ("r6", R, """        short_name = element_map.get('SHORT-NAME')
        if short_name is not None:
            data['name'] = short_name.text
        else:
            raise ar_exception.ParseError(
                "Missing required element SHORT-NAME")
        xml_long_name""", """        short_name = element_map.get('SHORT-NAME')
        if short_name is None:
            raise ar_exception.ParseError("Missing required element SHORT-NAME")
        data['name'] = short_name.text
        xml_long_name"""),
    ("r7", R, """        xml_child = element_map.get('CATEGORY')
        if xml_child is not None:
            data['category'] = xml_child.text
        xml_child = element_map.get('ADMIN-DATA')
        if xml_child is not None:
            data['admin_data'] = self._read_admin_data(xml_child)
        xml_child = element_map.get('INTRODUCTION')
        if xml_child is not None:
            data['introduction'] = self._read_documentation_block(xml_child)
        xml_child = element_map.get('ANNOTATIONS')
        if xml_child is not None:
            data['annotations'] = self._read_annotations(xml_child)""", """        if (xml_child := element_map.get('INTRODUCTION')) is not None:
            data['introduction'] = self._read_documentation_block(xml_child)
        if (xml_child := element_map.get('ANNOTATIONS')) is not None:
            data['annotations'] = self._read_annotations(xml_child)
        if (xml_child := element_map.get('CATEGORY')) is not None:
            data['category'] = xml_child.text
        if (xml_child := element_map.get('ADMIN-DATA')) is not None:
            data['admin_data'] = self._read_admin_data(xml_child)"""),
    ("r8", R, """        uuid = attr.get('UUID', None)
        if uuid is not None:
            data['uuid'] = uuid""", """        if 'UUID' in attr:
            data['uuid'] = attr['UUID']"""),
    ("w1", W, """        if attr is None or len(attr) == 0:
            text = f'<{tag}>'
        else:
            text = f'<{tag} {self._attr_to_str(attr)}>'
        self._add_inline_text(text)""", """        self._add_inline_text(self._start_tag(tag, attr))

    def _start_tag(self, tag: str, attr: None | TupleList = None) -> str:
        if not attr:
            return f'<{tag}>'
        return f'<{tag} {self._attr_to_str(attr)}>'"""),
    ("w2", W, """        if attr:
            if content:
                text = f'<{tag} {self._attr_to_str(attr)}>{self._escape_text(content)}</{tag}>'
            else:
                text = f'<{tag} {self._attr_to_str(attr)}/>'
        else:
            if content:
                text = f'<{tag}>{self._escape_text(content)}</{tag}>'
            else:
                text = f'<{tag}/>'
        if inline:""", """        start = tag
        if attr:
            start += ' ' + self._attr_to_str(attr)
        text = f'<{start}>{self._escape_text(content)}</{tag}>' if content else f'<{start}/>'
        if inline:"""),
    ("w3", W, """        parts = [f'{elem[0]}="{self._escape_attr(str(elem[1]))}"' for elem in attr]
        return ' '.join(parts)""", """        parts = []
        for name, value in attr:
            parts.append('{}="{}"'.format(name, self._escape_attr(str(value))))
        return ' '.join(parts)"""),
    ("w4", W, """        return text.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;').replace('\\r', '&#13;')""",
     """        for char, entity in (('&', '&amp;'), ('\\r', '&#13;'), ('>', '&gt;'), ('<', '&lt;')):
            text = text.replace(char, entity)
        return text"""),
    ("w5", W, """        if isinstance(number, int):
            return str(number)
        elif isinstance(number, float):
            return self._format_float(number)
        elif isinstance(number, ar_element.NumericalValue):
            return self._format_numerical_value(number)
        else:
            raise TypeError("Not supported: " + str(type(number)))""", """        if isinstance(number, ar_element.NumericalValue):
            return self._format_numerical_value(number)
        if isinstance(number, float):
            return self._format_float(number)
        if not isinstance(number, int):
            raise TypeError(f"Not supported: {type(number)}")
        return str(number)"""),
    ("w6", W, """        assert isinstance(value, bool)
        return 'true' if value else 'false'""", """        assert isinstance(value, bool)
        return str(value).lower()"""),
    ("w7", W, """        self.indentation_level -= 1
        if self.indentation_level == 0:
            self.indentation_str = ''
        else:
            self.indentation_str = self.indentation_char * \\
                (self.indentation_level * self.indentation_step)""", """        self.indentation_level = self.indentation_level - 1
        self.indentation_str = self.indentation_char * (self.indentation_step * self.indentation_level)"""),
    ("w8", W, """            class_name = elem.__class__.__name__
            write_method = self.switcher_collectable.get(class_name, None)
            if write_method is not None:
                write_method(elem)
            else:
                raise NotImplementedError(
                    f"Package: Found no writer for {class_name}")""", """            class_name = type(elem).__name__
            if class_name not in self.switcher_collectable:
                raise NotImplementedError(f"Package: Found no writer for {class_name}")
            self.switcher_collectable[class_name](elem)"""),
    ("w9", W, """        if math.isinf(value):
            return '-INF' if value < 0 else 'INF'
        if math.isnan(value):
            return 'NaN'
        else:
            tmp = decimal.Decimal(str(value))
            if tmp == tmp.to_integral() and tmp.adjusted() < decimal.getcontext().prec:
                result = tmp.quantize(decimal.Decimal(1))
            else:
                result = tmp.normalize()
            return str(result)""", """        if math.isnan(value):
            return 'NaN'
        if math.isinf(value):
            return 'INF' if value > 0 else '-INF'
        number = decimal.Decimal(str(value))
        is_integral = number == number.to_integral()
        if is_integral and number.adjusted() < decimal.getcontext().prec:
            return str(number.quantize(decimal.Decimal(1)))
        return str(number.normalize())"""),
    ("e1", E, """        if ref.startswith('/'):
            ref = ref[1:]
        parts = ref.partition('/')
        item = self._collection_map.get(parts[0], None)
        if item is not None:
            if len(parts[2]) > 0:
                return item.find(parts[2]) if hasattr(item, "find") else None
        return item""", """        name, _, tail = ref.removeprefix('/').partition('/')
        item = self._collection_map.get(name)
        if item is None or not tail:
            return item
        if hasattr(item, "find"):
            return item.find(tail)
        return None"""),
    ("e2", E, """        parts = ref.partition('/')
        package = self._package_dict.get(parts[0], None)
        if (package is not None) and (len(parts[2]) > 0):
            return package.find(parts[2])
        return package""", """        head, _, rest = ref.partition('/')
        package = self._package_dict.get(head)
        return package.find(rest) if package is not None and rest else package"""),
    ("e3", E, """        if isinstance(item, Package):
            package: Package = item
            if package.name in self._collection_map:
                raise ar_except.DuplicateElement(
                    f"Package with SHORT-NAME '{package.name}' already exists in package '{self.name}")
            package.parent = self
            self.packages.append(package)
            self._collection_map[package.name] = package
        elif isinstance(item, ARElement):
            elem: ARElement = item
            if elem.name in self._collection_map:
                raise ar_except.DuplicateElement(
                    f"Element with SHORT-NAME '{elem.name}' already exists in package '{self.name}'")
            elem.parent = self
            self.elements.append(elem)
            self._collection_map[elem.name] = elem
        else:
            raise TypeError(f"Invalid type {str(type(item))}")""", """        if isinstance(item, Package):
            kind, container = "Package", self.packages
        elif isinstance(item, ARElement):
            kind, container = "Element", self.elements
        else:
            raise TypeError(f"Invalid type {str(type(item))}")
        if item.name in self._collection_map:
            raise ar_except.DuplicateElement(
                f"{kind} with SHORT-NAME '{item.name}' already exists in package '{self.name}'")
        container.append(item)
        self._collection_map[item.name] = item
        item.parent = self"""),
    ("e4", E, """        for elem in self.elements:
            if elem.name in names:
                yield elem""", """        yield from (elem for elem in self.elements if elem.name in names)"""),
    ("e5", E, """        for elem in self.components:
            if elem.name == parts[0]:
                return elem
        for elem in self.connectors:
            if elem.name == parts[0]:
                return elem
        return super().find(ref)""", """        for elem in [*self.components, *self.connectors]:
            if elem.name == parts[0]:
                return elem
        return super().find(ref)"""),
    ("e6", E, """        for runnable in self.runnables:
            if runnable.name == name:
                return runnable
        return None""", """        matches = [runnable for runnable in self.runnables if runnable.name == name]
        return matches[0] if matches else None"""),
    ("e7", E, """        if package is None:
            package = self.create_package(parts[0])
        elif not isinstance(package, Package):
            raise KeyError(f"Item with name '{parts[0]}' already exists but isn't a package")
        if len(parts[2]) > 0:
            return package.make_packages(parts[2])
        else:
            return package""", """        if package is not None and not isinstance(package, Package):
            raise KeyError(f"Item with name '{parts[0]}' already exists but isn't a package")
        if package is None:
            package = self.create_package(parts[0])
        return package.make_packages(parts[2]) if parts[2] else package"""),
    ("e8", E, """        if component1 is None and component2 is None:
            if isinstance(port1, RequirePortPrototype) or isinstance(port2, ProvidePortPrototype):
                port1, port2 = port2, port1
            if isinstance(port1, RequirePortPrototype) or isinstance(port2, ProvidePortPrototype):
                raise ValueError('cannot create pass-through connector between two ports of the same kind')
            return self._create_pass_through_connector(port1, port2)
        elif component1 is None:
            return self._create_delegation_connector(component2, port2, port1)
        elif component2 is None:
            return self._create_delegation_connector(component1, port1, port2)
        else:""", """        if component1 is None:
            if component2 is not None:
                return self._create_delegation_connector(component2, port2, port1)
            if isinstance(port1, RequirePortPrototype) or isinstance(port2, ProvidePortPrototype):
                port1, port2 = port2, port1
            if isinstance(port1, RequirePortPrototype) or isinstance(port2, ProvidePortPrototype):
                raise ValueError('cannot create pass-through connector between two ports of the same kind')
            return self._create_pass_through_connector(port1, port2)
        elif component2 is None:
            return self._create_delegation_connector(component1, port1, port2)
        else:"""),
    ("e9", E, """        connector_name = '_'.join([provider_component.name,
                                   provide_port.name,
                                   requester_component.name,
                                   require_port.name])""", """        connector_name = (f"{provider_component.name}_{provide_port.name}_"
                          f"{requester_component.name}_{require_port.name}")"""),
    ("e10", E, """        elements = []
        for value in values:
            elements.append(ValueSpecification.make_value(value))
        return ArrayValueSpecification(label, elements)""",
     """        return ArrayValueSpecification(label, [ValueSpecification.make_value(value) for value in values])"""),
    ("e11", E, """        for i, elem in enumerate(elements):
            label = None
            if isinstance(elem, str):
                lower_limit, upper_limit, value = i, i, elem
            elif isinstance(elem, tuple):
                if len(elem) == 2:
                    lower_limit, upper_limit, value = (elem[0], elem[0], elem[1])
                elif len(elem) == 3:
                    lower_limit, upper_limit, value = elem
                else:
                    raise ValueError(f"Invalid length of tuple: {len(elem)}")
            else:
                raise TypeError(f"Invalid type of element: {str(type(elem))}")
            if auto_label and isinstance(value, str):
                label = value
            compu_scales""", """        index = -1
        for elem in elements:
            index += 1
            if isinstance(elem, tuple):
                if len(elem) not in (2, 3):
                    raise ValueError(f"Invalid length of tuple: {len(elem)}")
                lower_limit, upper_limit, value = elem[0], elem[-2], elem[-1]
            elif isinstance(elem, str):
                lower_limit = upper_limit = index
                value = elem
            else:
                raise TypeError(f"Invalid type of element: {str(type(elem))}")
            label = value if auto_label and isinstance(value, str) else None
            compu_scales"""),
    ("e12", E, """            for key, value in ports_to_process.items():
                if not value:
                    raise ValueError(f"port_name: '{key}' is not a valid port name in SWC '{swc.name}'")""",
     """            for key in [key for key, handled in ports_to_process.items() if not handled]:
                raise ValueError(f"port_name: '{key}' is not a valid port name in SWC '{swc.name}'")"""),
    ("e13", E, """        if isinstance(port_name, str):
            if port_name == "*":
                for port in swc.ports:
                    ports_to_process[port.name] = False
            else:
                ports_to_process[port_name] = False
        elif isinstance(port_name, Iterable):
            for name in port_name:
                ports_to_process[name] = False
        else:""", """        if isinstance(port_name, str):
            names = [port.name for port in swc.ports] if port_name == "*" else [port_name]
            ports_to_process.update((name, False) for name in names)
        elif isinstance(port_name, Iterable):
            ports_to_process.update({name: False for name in port_name})
        else:"""),
    ("k1", K, """        if name in self.namespaces:
            return self.namespaces[name]
        else:
            raise KeyError(f"No such namespace: {name}")""", """        try:
            return self.namespaces[name]
        except KeyError:
            raise KeyError(f"No such namespace: {name}") from None"""),
    ("k2", K, """        base_ref = namespace.base_ref
        try:
            rel_path = namespace.package_map[role]
        except KeyError as ex:
            raise ValueError(f"Role '{str(role)}'not in namespace map") from ex
        return posixpath.normpath(posixpath.join(base_ref, rel_path))""", """        if role not in namespace.package_map:
            raise ValueError(f"Role '{str(role)}'not in namespace map")
        path = posixpath.join(namespace.base_ref, namespace.package_map[role])
        return posixpath.normpath(path)"""),
    ("k3", K, """        self.package_map.clear()
        for package_key, package_ref in mapping.items():
            self.package_map[package_key] = self.make_packages(package_ref)""", """        self.package_map.clear()
        self.package_map.update({key: self.make_packages(ref) for key, ref in mapping.items()})"""),
    ("k4", K, """            if isinstance(value, str):
                suffix_filters.append(value)
            elif isinstance(value, list):
                for item in value:
                    assert isinstance(item, str)
                    suffix_filters.append(item)
            else:
                raise ValueError(f"suffix_filters: Invalid type '{str(type(value))}'")""", """            if not isinstance(value, (str, list)):
                raise ValueError(f"suffix_filters: Invalid type '{str(type(value))}'")
            items = [value] if isinstance(value, str) else value
            assert all(isinstance(item, str) for item in items)
            suffix_filters.extend(items)"""),
    ("k5", K, """                element_list = [matched_element]
                if mapping.suffix_filters:
                    for suffix in mapping.suffix_filters:
                        if len(suffix) > 0:
                            name = matched_element.name + suffix
                            extra_element = element_map.get(name, None)
                            if extra_element is not None:
                                element_list.append(extra_element)""", """                names = [matched_element.name + suffix for suffix in mapping.suffix_filters if suffix]
                element_list = [matched_element] + [element_map[name] for name in names if name in element_map]"""),
    ("k6", K, """        for package_ref in package_refs:
            package = self.find(package_ref)
            if package is not None:
                if not isinstance(package, ar_element.Package):
                    raise ValueError(f"'{package_ref}' does not reference a package element")
                if document.find(package_ref) is package:
                    continue  # Part of a package which already is in the document
                # The document shows the package at the same place, it still belongs to the workspace
                parent = package.parent
                container = document if parent is self else document.make_packages(str(parent.ref()))
                container.append(package)
                package.parent = parent
            else:
                raise KeyError(f"No such package: '{package_ref}'")
        if self.document_root""", """        for package_ref in package_refs:
            package = self.find(package_ref)
            if package is None:
                raise KeyError(f"No such package: '{package_ref}'")
            if not isinstance(package, ar_element.Package):
                raise ValueError(f"'{package_ref}' does not reference a package element")
            if document.find(package_ref) is not package:
                self._show_package(document, package)
        if self.document_root"""),
    ("k6b", K, """    def _gen_package_to_document_mapping(self,
""", """    def _show_package(self, document: ar_document.Document, package: ar_element.Package) -> None:
        parent = package.parent
        if parent is self:
            document.append(package)
        else:
            document.make_packages(str(parent.ref())).append(package)
        package.parent = parent

    def _gen_package_to_document_mapping(self,
"""),

    ("k8", K, """        base_ref = None
        package_map = {}
        for key, value in config.items():
            if key == "base_ref":
                base_ref = value
            else:
                package_map[key] = value
        self.create_namespace(name, package_map, base_ref)""", """        package_map = {key: value for key, value in config.items() if key != "base_ref"}
        self.create_namespace(name, package_map, config.get("base_ref"))"""),
    ("m1", M, """        for type_ref in sorted(self.source_type_refs):
            data_type = self.data_types[type_ref]
            dependency_trees.append(self._create_tree_node(data_type))
        return dependency_trees""", """        for type_ref in sorted(self.source_type_refs):
            dependency_trees += [self._create_tree_node(self.data_types[type_ref])]
        return dependency_trees"""),
    ("m2", M, """        que = deque()
        que.append(root)
        result = []
        while que:
            node: Node = que.popleft()
            result.append(node)
            for child in reversed(node.children):
                que.append(child)
        return reversed(result)""", """        result = [root]
        for node in result:
            result.extend(reversed(node.children))
        result.reverse()
        return iter(result)"""),
    ("m3", M, """        for ar_sub_elem in element.sub_elements:
            if ar_sub_elem.category == "VALUE":
                sub_element = self._create_struct_type_element_from_scalar_type(elem_ref, ar_sub_elem)
            elif ar_sub_elem.category == "TYPE_REFERENCE":
                sub_element = self._create_struct_type_element_from_ref_type(elem_ref, ar_sub_elem)
            else:
                raise NotImplementedError(ar_sub_elem.category)
            data_type.sub_elements.append(sub_element)""", """        makers = {"VALUE": self._create_struct_type_element_from_scalar_type,
                  "TYPE_REFERENCE": self._create_struct_type_element_from_ref_type}
        for ar_sub_elem in element.sub_elements:
            maker = makers.get(ar_sub_elem.category)
            if maker is None:
                raise NotImplementedError(ar_sub_elem.category)
            data_type.sub_elements.append(maker(elem_ref, ar_sub_elem))"""),
    ("g1", G, """                data_type = node.data
                if data_type.ref not in instance_refs:
                    instance_refs.add(data_type.ref)
                    # Ignore BaseTypes without native declaration
                    if isinstance(data_type, rte_element.BaseType) and not data_type.native_declaration:
                        continue
                    # Ignore ImplementationTypes with non-RTE type emitter
                    if isinstance(data_type, rte_element.ImplementationType) and (
                            data_type.type_emitter is not None and data_type.type_emitter.upper() != "RTE"):
                        continue
                    result.append(data_type)
        return result""", """                data_type = node.data
                if data_type.ref in instance_refs:
                    continue
                instance_refs.add(data_type.ref)
                if self._is_emitted(data_type):
                    result.append(data_type)
        return result

    @staticmethod
    def _is_emitted(data_type) -> bool:
        if isinstance(data_type, rte_element.BaseType):
            return bool(data_type.native_declaration)
        if isinstance(data_type, rte_element.ImplementationType):
            return data_type.type_emitter is None or data_type.type_emitter.upper() == "RTE"
        return True"""),
    ("g2", G, """        members = []
        for element in data_type.sub_elements:
            if isinstance(element.data_type, rte_element.ScalarType):
                scalar_type: rte_element.ScalarType = element.data_type
                if scalar_type.base_type.native_declaration:
                    target_type = C.type(scalar_type.base_type.native_declaration)
                else:
                    target_type = C.type(scalar_type.base_type.name)
            elif isinstance(element.data_type, rte_element.RefType):
                target_type = C.type(element.data_type.impl_type.name)
            else:
                raise NotImplementedError(str(type(element.data_type)))
            members.append(C.struct_member(element.name, target_type))""", """        members = [C.struct_member(element.name, self._target_type(element.data_type))
                   for element in data_type.sub_elements]"""),
    ("g3", G, """        if isinstance(last_element.data_type, rte_element.ScalarType):
            scalar_type: rte_element.ScalarType = last_element.data_type
            if scalar_type.base_type.native_declaration:
                target_type = C.type(scalar_type.base_type.native_declaration)
            else:
                target_type = C.type(scalar_type.base_type.name)
        elif isinstance(last_element.data_type, rte_element.RefType):
            target_type = C.type(last_element.data_type.impl_type.name)
        else:
            raise NotImplementedError(str(type(last_element.data_type)))
        return C""", """        target_type = self._target_type(last_element.data_type)
        return C"""),
    ("g3b", G, """    def _gen_record_type_def(""", """    def _target_type(self, data_type: rte_element.Element):
        if isinstance(data_type, rte_element.RefType):
            return C.type(data_type.impl_type.name)
        if not isinstance(data_type, rte_element.ScalarType):
            raise NotImplementedError(str(type(data_type)))
        base_type = data_type.base_type
        return C.type(base_type.native_declaration or base_type.name)

    def _gen_record_type_def("""),
]

