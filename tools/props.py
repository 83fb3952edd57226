"""Source of properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EL, WR, RD, EN, RF = ('src/autosar/xml/' + x for x in ('element.py', 'writer.py', 'reader.py', 'enumeration.py', 'reference.py'))
TECH = 'contract-based deductive verification of the real Python functions (own VC generator over their source, z3 back end)'
RT_WHY = ('The tests write or read a few fixed example elements, mostly with one optional field set at a time; no test covers every '
          'combination of optional fields, list lengths, nesting depths and texts, and most never compare the element read back with the one written.')
RT_Q = 'every element of these kinds that its documented constructor arguments can build: any text, number, enumeration value, list length, nesting depth and combination of optional parts'


def rt(id, title, what, anchors):
    return dict(
        id=id, title=title,
        statement=('Writing %s as ARXML and reading the text back gives an element of the same kind with equal content: every '
                   'attribute, text, number, enumeration value, reference and nested element is preserved, in order and multiplicity. '
                   'Writing succeeds for every element that can be constructed from valid arguments, the text is one well-formed XML element '
                   'under the tag of its role, and the reader understands every part of it (nothing is reported as unprocessed).' % what),
        quantifier=dict(over=['inputs'], text=RT_Q),
        why_tests_cant=RT_WHY,
        anchors=dict(files=[EL, WR, RD, EN, RF], mechanism=[dict(name=n, where=w) for n, w in anchors]),
        level='proof',
        note=('Each writer/reader pair is verified modularly against its codec contract (callers use the callee contract; lists by the arbitrary-element rule, '
              'nesting by induction on the contract), over symbolic inputs with no bound on text, numbers, list length or depth; functions the engine cannot cover are '
              'checked at a stated bound and listed as bounded in the evidence. Trusted: the verifier in /verif/vf, its models of builtins and of lxml parsing, z3; '
              'each contract is cross-checked against execution of the real code.'))


P = [
    rt('P01', 'Data types, units, compu-methods and constraints survive a round trip',
       'any data type (application, implementation, base), data type mapping, addressing method, unit, computation method or data constraint, and their parts,',
       [('data type, unit, computation and constraint writers', WR + ': _write_compu_method.._write_data_type_mapping_set'),
        ('the corresponding readers', RD + ': _read_compu_method.._read_data_type_mapping_set')]),
    rt('P02', 'Constants, value specifications and calibration values round-trip',
       'any constant specification, value specification (text, numerical, not-available, array, record, application value, constant reference) or calibration value container',
       [('value specification and calibration writers', WR + ': _write_constant_specification, _write_sw_values, ...'),
        ('value specification and calibration readers', RD + ': _read_constant_specification, _read_sw_values, ...')]),
    rt('P03', 'Port interfaces, data prototypes and mode declarations survive a round trip',
       'any port interface (sender-receiver, client-server, non-volatile data, parameter, mode-switch), data prototype, data filter, operation, application error, end-to-end profile compatibility set or mode declaration group',
       [('port interface and mode declaration writers', WR + ': _write_sender_receiver_interface, ...'),
        ('port interface and mode declaration readers', RD + ': _read_sender_receiver_interface, ...')]),
    rt('P04', 'Component types, ports, com-specs and connectors survive a round trip',
       'any software component type, composition, component prototype, port prototype, communication specification or connector',
       [('component, port, com-spec and connector writers', WR + ': _write_application_sw_component_type, ...'),
        ('component, port, com-spec and connector readers', RD + ': _read_application_sw_component_type, ...')]),
    rt('P05', 'Internal behaviors, runnables, events, implementations survive a round trip',
       'any internal behavior, runnable entity, access point, event, exclusive area, port API option, instance reference or component implementation',
       [('internal behavior writers', WR + ': _write_swc_internal_behavior, _write_runnable_entity, ...'),
        ('internal behavior readers', RD + ': _read_swc_internal_behavior, _read_runnable_entity, ...')]),
    rt('P06', 'Documentation text, annotations and packages survive a round trip',
       'any multi-language documentation element (long names, descriptions, paragraphs, verbatim text, emphasis, index entries, sub- and superscripts, technical terms, line breaks), annotation or package',
       [('documentation writers', WR + ': _write_documentation_block, _write_multi_language_*, _write_annotation, _write_package'),
        ('documentation readers', RD + ': _read_documentation_block, _read_multi_language_*, _read_annotation, _read_package')]),
    dict(id='P07', title='Any text is written escaped and read back; every document is well-formed',
         statement=('Whatever characters a text or attribute value contains (including & < > and quotes), the XML the writer produces is well-formed, '
                    'properly nested, and an XML parser finds in it exactly the texts, attributes and elements that were written; '
                    'this holds for element content, attribute values, mixed content, any nesting depth, and when one writer writes several documents.'),
         quantifier=dict(over=['inputs'], text='every text and attribute value of characters XML 1.0 can represent; every sequence of begin/leave element calls'),
         why_tests_cant='Tests write a handful of plain texts; escaping must be right for every text at every place a text is written.',
         anchors=dict(files=[WR], mechanism=[dict(name='escaping', where=WR + ': _escape_text, _escape_attr'),
                                             dict(name='writer primitives', where=WR + ': _add_content, _add_child, _leave_child, _begin_line, _end_line, _add_text'),
                                             dict(name='public entry points', where=WR + ': write_str_elem')]),
         level='proof',
         note=('The writer primitives are executed symbolically on texts with arbitrary parts, and the produced text is parsed by a symbolic XML parser in which each part is proved '
               'to be the escaped form of its text (character-wise homomorphism decided over the finitely many special characters). Trusted: the verifier, its XML grammar model, z3; '
               'cross-checked with lxml on sampled texts.')),
    dict(id='P08', title='Numbers and booleans keep their value in every notation',
         statement=('An integer, float or boolean written by the library is read back as the same value: integers of any size in decimal, hexadecimal and binary notation, finite floats '
                    'exactly, infinities as INF and -INF, booleans as true/false (and 1/0 when read). A numerical value remembers its notation and '
                    'is written in it without losing digits; a positive integer rejects negative numbers; what is no number is rejected with an error.'),
         quantifier=dict(over=['inputs'], text='every integer, every finite float, every notation'),
         why_tests_cant='Tests try a few small numbers; digits are lost only for large, tiny or unusual values.',
         anchors=dict(files=[WR, RD, EL], mechanism=[dict(name='number formatting', where=WR + ': _format_number, _format_float, _format_boolean'),
                                                     dict(name='number reading', where=RD + ': _read_number, _read_integer, _read_boolean'),
                                                     dict(name='numerical values', where=EL + ': NumericalValue, PositiveIntegerValue')]),
         level='proof',
         note=('Number texts are symbolic terms with axioms (str/int/float/Decimal inverse pairs); the formatting code is executed over them. Trusted: those axioms '
               '(the interpreter\'s own conversions), the verifier, z3; cross-checked by executing thousands of random numbers.')),
    dict(id='P09', title='Every enumeration value has exactly its ARXML text and is read back from it',
         statement=('Each value of each enumeration is written as the text AUTOSAR defines for it (in each schema version, where the text depends on the version), that text is read back '
                    'as the value, different values have different texts, texts that are no value of the enumeration are rejected, and version-specific values are '
                    'rejected for the other versions.'),
         quantifier=dict(over=['inputs'], text='every enumeration, every value, every text, schema versions 40 to 59'),
         why_tests_cant='Tests use a few of the values of most enumerations; a swapped or missing text of another value goes unnoticed.',
         anchors=dict(files=[EN], mechanism=[dict(name='texts', where=EN + ': enum_to_xml_map, xml_to_enum_map'),
                                             dict(name='conversion', where=EN + ': enum_to_xml, xml_to_enum, str_to_package_role')]),
         level='proof',
         note=('enum_to_xml/xml_to_enum are executed symbolically for an arbitrary value and an arbitrary text against a frozen table of the AUTOSAR texts. '
               'Trusted: the frozen table vfspec/enums.py, the verifier, z3.')),
    dict(id='P10', title='A reference keeps its path and only points to the kinds it can point to',
         statement=('Each kind of reference accepts a path with exactly the element kinds (DEST values) AUTOSAR allows for it, has that path as its text, and takes its only possible kind '
                    'when none is given; other kinds are rejected. Reading a reference gives its path and kind; a missing, unknown or unfitting DEST is rejected. '
                    'Every element that holds references keeps a reference with a fitting kind as one of its own type with the same path and kind, turns a path into '
                    'one where the kind is unambiguous, and rejects everything else.'),
         quantifier=dict(over=['inputs'], text='every kind of reference, every path, every DEST text, every element attribute that holds references'),
         why_tests_cant='Tests build one reference with a fitting kind per class; kinds that must be rejected, conversions between kinds of references and wrong DEST values are hardly tried.',
         anchors=dict(files=[RF, RD, EL, 'src/autosar/xml/base.py'],
                      mechanism=[dict(name='references', where=RF + ': *Ref.__init__, accepted_sub_types; src/autosar/xml/base.py: BaseRef'),
                                 dict(name='conversion', where='src/autosar/xml/base.py: ARObject._check_and_set_reference, _assign*'),
                                 dict(name='reading', where=RD + ': _read_*_ref, _read_base_ref_attributes')]),
         level='proof',
         note=('Constructors, assignment helpers and readers are executed symbolically for an arbitrary path, an arbitrary kind and every kind of source reference, against a frozen table of '
               'allowed kinds (vfspec/refs.py). Trusted: that table, the verifier, z3.')),
    dict(id='P11', title='An element has exactly the values its constructor was given, in every form',
         statement=('Constructing an element with valid arguments succeeds, and its attributes then equal the arguments: nothing is lost, swapped, defaulted or shared; what is left out is the same '
                    'as None. The documented short forms mean the same as the full ones: a single element for a list of one, a text or (language, text) pair for a description, label or '
                    'paragraph, a number for a timeout or constant, a path for a reference, one variant for a set of data properties, names or (name, value) pairs for modes.'),
         quantifier=dict(over=['inputs'], text='every class of elements, every combination of valid constructor arguments, every documented short form'),
         why_tests_cant='Tests set one or two arguments of a class at a time and use each short form in few places; an argument that is dropped or confused with another goes unnoticed.',
         anchors=dict(files=[EL, 'src/autosar/xml/base.py'], mechanism=[dict(name='constructors', where=EL + ': __init__ of every class'),
                                                                        dict(name='assignment helpers', where='src/autosar/xml/base.py: ARObject._assign*')]),
         level='proof',
         note=('Each constructor is executed symbolically on arbitrary values of every argument (lists of any length). RunnableEntity is verified argument by argument. Trusted: the frozen '
               'domains (vfspec/domains.py), the verifier, z3; each specification is cross-checked by execution on sampled arguments.')),
    dict(id='P12', title='Elements are written with the tags, attributes and order of the schema',
         statement=('Each part of an element is written at its own place: under the tag (or attribute) the AUTOSAR schema gives it, exactly when it is given, and never elsewhere. '
                    'An element contains only tags and attributes of its schema type, at most once unless they may be repeated, and in the order the schema prescribes, '
                    'whatever combination of optional parts is present.'),
         quantifier=dict(over=['inputs'], text='every writer, every element it accepts: all combinations of optional parts and lists of any length'),
         why_tests_cant='Tests compare the full text of elements with one or two parts; the relative order and place of parts that no test sets together is never seen, and a misnamed tag the reader also accepts survives every round trip.',
         anchors=dict(files=[WR], mechanism=[dict(name='element writers', where=WR + ': every _write_* method'),
                                             dict(name='inherited groups', where=WR + ': _write_referrable, _write_identifiable, ... groups')]),
         level='proof',
         note=('Each writer is executed symbolically on an arbitrary element; order, tags, attributes and presence of each part are compared with a frozen table (vfspec/layout.py, '
               'generated once from the writer and reviewed against the AUTOSAR 4 schema from memory: no schema file is available offline). Nested elements by contract.')),
    dict(id='P13', title='Packages form a consistent tree: unique names, parents, lookup by path',
         statement=('In every package, package collection, document and workspace, the names of packages and elements are unique: adding an item with a used name is rejected and '
                    'changes nothing; a new item is added at the end, is then found by its name and by its path (with or without leading slash, as a text or as a reference), has the '
                    'container as its parent, and leaves what else is found unchanged. A path leads step by step to the item it names, or to nothing. create_package and make_packages '
                    'make exactly the packages of a path that are missing. What is no package or element, or no path, is rejected.'),
         quantifier=dict(over=['inputs', 'histories'], text='every package tree, every name and path, every sequence of additions'),
         why_tests_cant='Tests add a few packages to empty collections; name clashes between packages and elements, re-used names, deeper or unusual paths and what stays unchanged are not compared.',
         anchors=dict(files=[EL], mechanism=[dict(name='packages', where=EL + ': Package.append, find, create_package, make_packages'),
                                             dict(name='collections', where=EL + ': PackageCollection.append, find, create_package, make_packages')]),
         level='proof',
         note=('Each operation is verified for an arbitrary package (lazily abstracted content map) and arbitrary names; paths by induction: find/make_packages of the rest of the path '
               'are used by contract. One specification (histories of several operations) is bounded. Trusted: the abstraction of the package map, the verifier, z3.')),
    dict(id='P14', title='The reference of an element is its path and leads back to it',
         statement=('The reference of an element or of a nested part is the path made of the names of the packages and elements that contain it, of the reference kind and with the '
                    'destination of the element; it is None as long as the element is not contained in a document. Every container is the parent of each part that is given to its '
                    'constructor or added later. Looking up the reference (or path) of an element, or of a part that can be found by path, gives that very object.'),
         quantifier=dict(over=['inputs'], text='every kind of element, every name, every containing package, every way of adding a part'),
         why_tests_cant='Tests check the reference text of a few elements in one package; forgotten parents, wrong destinations and lookups of nested parts of other kinds are not covered.',
         anchors=dict(files=[EL], mechanism=[dict(name='references', where=EL + ': ref, _calc_ref_string, update_ref_parts, root_collection'),
                                             dict(name='containers', where=EL + ': append*, __init__, find of elements with parts')]),
         level='proof',
         note=('Each ref/append/find is verified for arbitrary names and an arbitrary containing package (update_ref_parts of the package by contract, as induction hypothesis). '
               'Trusted: frozen table of reference kinds and destinations (vfspec/p14.py), the verifier, z3.')),
    dict(id='P15', title='Names made for parts of runnables and for events are unique',
         statement=('A part added to a runnable keeps its name if no part of the same list has it, and otherwise gets that name with a number so that all names in the list are distinct; '
                    'the part is added at the end with the runnable as parent. An event created in a behavior gets the wanted (or default) name, or that name with a number, such '
                    'that the names of all events of the behavior are distinct. Parts of the wrong kind are rejected.'),
         quantifier=dict(over=['inputs', 'histories'], text='every sequence of names, including names that already end in a number'),
         why_tests_cant='Tests add one or two parts with different names; clashes with names that already carry a number, or that contain the wanted name, are not tried.',
         anchors=dict(files=[EL], mechanism=[dict(name='names', where=EL + ': make_unique_name_in_list'),
                                             dict(name='parts and events', where=EL + ': RunnableEntity.append_*, SwcInternalBehavior.create_*_event')]),
         level='proof',
         note=('make_unique_name_in_list is proved for every list of distinct (ASCII) names by a loop invariant over a small theory of numbered names; the append methods are proved for '
               'all names against its contract; creation of events is executed exhaustively within stated bounds (labelled bounded). Trusted: that theory of texts, the verifier, z3.')),
    dict(id='P16', title='Written documents are read back; unreadable elements do not hide others',
         statement=('A document written to text or to a file and read again (by a new reader or one that read other documents before) has the same packages in the same order, '
                    'with equal content, and the schema version it was written for, and nothing is reported. In a document with elements the reader cannot interpret (unknown kind, '
                    'missing or used name, invalid number, enumeration text, truth value or reference) each of these is reported and left out, and all others are read in their order; '
                    'with stop_on_error reading raises a ParseError or DuplicateElement instead.'),
         quantifier=dict(over=['inputs'], text='every list of packages with every content, every schema version, every mix of readable and unreadable elements'),
         why_tests_cant='Tests read one small document and no faulty one; the number and mix of packages, elements and faults is unbounded.',
         anchors=dict(files=['src/autosar/xml/writer.py', 'src/autosar/xml/reader.py', 'src/autosar/xml/document.py'],
                      mechanism=[dict(name='documents', where='writer.py: write_str, write_file, _write_document; reader.py: read_str, read_file, _read_root_element, _read_packages'),
                                 dict(name='faulty elements', where='reader.py: _read_package_elements, _clean_namespace, _read_schema_version')]),
         level='proof',
         note=('Documents are verified over arbitrary packages against the package codec contract (P06) and the output primitives (P07); faulty elements over arbitrary sequences in '
               'which a read method raises, against the codec contracts (P01-P06), plus concrete faulty texts. Trusted: lxml is an XML parser with namespaces, the verifier, z3.')),
    dict(id='P17', title='A workspace puts elements and documents where it was told to',
         statement=('The package of a role in a namespace is the mapped path, below the base of the namespace unless absolute, normalised; roles that are not mapped and unknown '
                    'namespaces are rejected. A package map makes and gives the packages of its keys. Applying an element template makes what it depends on first, then the element in the '
                    'package of its role, once; an existing element is used; it is added unless it is to be kept out, and what is no element is rejected. '
                    'write_documents writes each document with exactly its packages, at their place, in order and with their contents, and for each document mapping one document per '
                    'element of the given kinds with the elements that have its name and a suffix, sorted by name; below the document root, for the given schema version, as often as it '
                    'is called, and leaves the workspace unchanged. A configuration file has the effect of the corresponding calls. A behavior setting has the value it was set to.'),
         quantifier=dict(over=['inputs'], text='every name, path, base, role, setting and package content; the numbers of packages, documents, elements and dependencies are small and fixed in each contract'),
         why_tests_cant='Tests use a few fixed names and paths, write no document twice, and never look at what is left in the workspace.',
         anchors=dict(files=['src/autosar/xml/workspace.py', 'src/autosar/xml/template.py', EL],
                      mechanism=[dict(name='namespaces, package maps, configuration', where='workspace.py: Namespace, create_package_map, load_config'),
                                 dict(name='templates', where='workspace.py: apply, _apply_element_template, _create_dependencies; template.py'),
                                 dict(name='documents', where='workspace.py: write_documents, _write_document_from_config, _gen_package_to_document_mapping'),
                                 dict(name='settings', where='element.py: BehaviorSettings')]),
         level='proof',
         note=('Verified over symbolic names, paths and package contents (package codec contract from P06/P16); how many packages, documents, elements and dependencies take part is fixed in '
               'each specification (1 to 5). tomllib, os.path.join/normpath and the file system are trusted models; names are not "." or "..". Suffixes of document mappings are fixed texts.')),
    dict(id='P18', title='Ports, com-specs and connectors that are made fit their interfaces',
         statement=('A port made from an interface has exactly the communication specifications asked for, one for each data element, operation or mode group it is given for, of the class '
                    'that fits the interface, the side and the queueing of the data element, with the values given, and referring to that part of the interface; on both sides of a port '
                    'that is both. Finished specifications of the user are kept and given their missing reference. Parts the interface does not have are rejected. A port belongs to '
                    'its component, refers to its interface and is found by its name, also through prefixes that name a part of its interface. Prototypes and internal behaviors refer to their '
                    'type and have the name given or one made from it. A connector between two inner components joins their ports as an assembly, one to an outer port delegates it, one between '
                    'outer ports passes through; provider and requester are told apart whatever the order; it belongs to the composition; what does not fit is rejected.'),
         quantifier=dict(over=['inputs'], text='every name, number, limit and value, every interface and component kind named; the numbers of data elements, operations, ports and components are small and fixed in each contract'),
         why_tests_cant='Tests create one or two ports of each kind with fixed names and one argument combination; the wrong order, wrong kind and unknown-part paths are not tested.',
         anchors=dict(files=[EL],
                      mechanism=[dict(name='ports', where='element.py: ProvidePortPrototype, RequirePortPrototype, PRPortPrototype; SwComponentType.create_p_port, create_r_port, create_pr_port'),
                                 dict(name='communication specifications', where='element.py: PortInterface-specific *ComSpec classes, make_com_spec_with_name and the like'),
                                 dict(name='connectors', where='element.py: CompositionSwComponentType.create_connector, create_component_prototype; PortComSpec'),
                                 dict(name='behaviors', where='element.py: AtomicSoftwareComponentType.create_internal_behavior')]),
         level='proof',
         note=('Verified over symbolic names and values in a workspace with a single package; how many parts, ports and components take part is fixed in each specification (0 to 3). '
               'Ports that are both in assembly connectors and ports without interface are unspecified. Trusted: the verifier, z3.')),
    dict(id='P19', title='Runnables, events and access points are the ones asked for',
         statement=('create_port_access makes exactly one access point per element asked for, in the list its prefix (in any case) and the side of the port call for, for the named part of the '
                    'interface of that port, or its only one; with the name and attributes given, or a name of the set prefix, the port and the part; what it is given is left alone, and ports, '
                    'parts, prefixes and interfaces that do not exist or do not offer the access are rejected, as is a runnable outside a workspace. An event that is made is added last to its '
                    'behavior, has the name and attributes given or one made of the set prefix, starts its runnable, and is for the data element, operation, modes or transition named; '
                    'what cannot cause it is rejected. Runnables have their symbol, attributes and exclusive areas and are found by name. Options are made for each port asked for.'),
         quantifier=dict(over=['inputs'], text='every name, prefix, text and value, every access form and port side; the numbers of ports, parts and runnables are small and fixed in each contract'),
         why_tests_cant='Tests make one access or event of each kind with fixed names and nearly no options, and hardly test what is rejected.',
         anchors=dict(files=[EL],
                      mechanism=[dict(name='access points', where='element.py: RunnableEntity.create_port_access, _parse_port_access_prefix, _create_*_port_access'),
                                 dict(name='events', where='element.py: SwcInternalBehavior.create_*_event, SwcModeSwitchEvent.make, DataReceivedEvent.make, ...'),
                                 dict(name='runnables and options', where='element.py: SwcInternalBehavior.create_runnable, create_port_api_options, find_runnable')]),
         level='proof',
         note=('Verified over symbolic names and values in a workspace with a single package, callee contract for make_unique_name_in_list (P15, bounded in part there); how many ports, parts and '
               'runnables take part is fixed in each specification (1 to 5). Implicit and explicit access of the opposite side, such as READ of a provide-port, is unspecified. Trusted: the verifier, z3.')),
    dict(id='P20', title='Values, conversions, constraints and parts made by helpers are those asked for',
         statement=('make_value turns every number, text, None and nested list into the value of its kind with the same content, order and labels, and rejects anything else; finished values '
                    'are kept. A value table has one scale for each element with its limits, value and label; a linear conversion has the factor, offset, limits and default value given. '
                    'A constraint has the limits and attributes given, and a value is inside exactly when each limit that is given, open or closed, admits it. A part made for an interface, operation, mode '
                    'group or behavior has the name and attributes given and is added last; nothing else changes, and what does not fit is rejected and adds nothing. Properties, records, modes '
                    'and wrappers of numbers hold what they were given.'),
         quantifier=dict(over=['inputs'], text='every name, text, number and attribute value, and any number of values in a list; values are nested two lists deep'),
         why_tests_cant='Tests make one or two values, tables and parts with fixed content, and no limits that are missing or open, no default values of 0 and no mixed tables.',
         anchors=dict(files=[EL],
                      mechanism=[dict(name='values', where='element.py: ValueSpecification.make_value, _make_from_args, make_value_with_check, ConstantSpecification.make_constant'),
                                 dict(name='conversions and constraints', where='element.py: Computation.make_value_table, make_rational, DataConstraint.make_*, LimitObject.check_value'),
                                 dict(name='parts', where='element.py: create_data_element, create_parameter, create_operation, create_*argument, create_possible_error, create_mode_*, create_invalidation_policy')]),
         level='proof',
         note=('Deeper nesting of values follows by the same recursive calls but is not proved by induction. Integers given as scaling factor are at most 2**53 in size, as larger ones are rounded to a float. '
               'Numbers are mathematical. make_value of an empty list or tuple is unspecified. Trusted: the verifier, z3.')),
    dict(id='P21', title='The type header defines every type asked for once, after those it needs',
         statement=('The type model holds one type for each element asked for and each element that needs, with its name, symbol, type emitter, base, referenced, member or target type and array attributes; '
                    'asking again gives the same type, whatever was created before, and what has no type is rejected without a trace. The header defines every type that was asked for, and every type '
                    'these are made of, exactly once, after the types its definition names; except base types without native declaration and types that something other than the RTE defines. '
                    'Each definition has the name of the type and the type, members and array size of the model, and the header guards against repeated inclusion and declares C linkage to C++ compilers only.'),
         quantifier=dict(over=['inputs'], text='every name, symbol, emitter, native declaration, size and attribute, and any number of members; types that need each other in every way up to four types, and all trees of up to nine types'),
         why_tests_cant='Tests generate headers for a handful of types with fixed names, one at a time, and never with two types that share another, or in another order.',
         anchors=dict(files=['src/autosar/model/implementation.py', 'src/autosar/model/element.py', 'src/autosar/generator/type_generator.py'],
                      mechanism=[dict(name='type model', where='model/implementation.py: ImplementationModel.create_from_element, create_from_ref, _create_*_type_from_element'),
                                 dict(name='order', where='model/implementation.py: gen_type_dependency_trees, get_type_creation_order; type_generator.py: gen_data_type_creation_order'),
                                 dict(name='definitions', where='type_generator.py: _gen_type_defs, _gen_array_type_def, _gen_record_type_def, _create_code_sequence')]),
         level='proof',
         note=('Types, definitions and header are proved for all names and attributes, through the source of the cfile library that writes them; get_type_creation_order is checked on all trees of up to nine '
               'types (bounded), and the order of definitions for every way in which up to four types need each other. Arrays of more than one dimension, pointers in the header and unions are not supported by '
               'the code (errors) and unspecified. Trusted: the verifier, z3.')),
    dict(id='P22', title='What is appended to an element is its last part; wrong kinds are rejected',
         statement=('Every append method of an element puts the part it is given at the end of the list it is for, leaves the parts that were there and all other lists of the element alone, and makes '
                    'the element the parent of the part where parts have one. A part of a kind that the list does not take raises TypeError and changes nothing. Constructors raise TypeError for an '
                    'argument, or a part in a list argument, of a kind that the parameter does not take, and ValueError for a negative number where only natural numbers are allowed and for a text '
                    'outside the pattern of its parameter.'),
         quantifier=dict(over=['inputs', 'histories'], text='every element with any parts, however many were appended before, and every part, of each kind that some list takes, with arbitrary content'),
         why_tests_cant='Tests append one or two parts to a few lists and look at those only, and hardly ever pass a value of a wrong kind.',
         anchors=dict(files=['src/autosar/xml/element.py', 'src/autosar/xml/base.py'],
                      mechanism=[dict(name='append methods', where='xml/element.py: append, append_*'),
                                 dict(name='checks of constructor arguments', where='xml/base.py: ARObject._assign*, _check_type; xml/element.py: constructors')]),
         level='proof',
         note=('Which kinds a parameter of a constructor takes is frozen from the source (vfspec/strict.py), leaving out the parameters that take anything. Wrong kinds are tried out of a fixed pool of about a hundred kinds of values. '
               'Names that clash with those of other parts: P15. Trusted: the verifier, z3.')),
]

NOT_APPLICABLE = []


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in P:
            d = {k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}
            assert len(d['title']) <= 80, d['title']
            f.write(json.dumps(d) + '\n')
    checks = []
    for p in P:
        if p['id'] in [x['property'] for x in NOT_APPLICABLE]:
            continue
        checks.append(dict(property=p['id'],
                           quick_cmd='python3-vt check.py %s --tier quick' % p['id'],
                           thorough_cmd='python3-vt check.py %s --tier thorough' % p['id'],
                           evidence_file='evidence/%s.json' % p['id'],
                           technique=p.get('technique', TECH), level=p['level'], level_note=p['note']))
    m = dict(version=1, setup_cmd='python3-vt check.py --selftest', checks=checks, not_applicable=NOT_APPLICABLE,
             notes='See DESIGN.md. Checks read /repo/src on every run; nothing is built.')
    json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)


main()
