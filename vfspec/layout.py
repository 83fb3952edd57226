"""Shape of every written element and the place of each of its parts (see tools/freeze_layout.py; frozen)."""
LAYOUT = {('AbstractImplementationDataTypeElementRef', 'CONTEXT-DATA-PROTOTYPE-REF'): ((('DEST',), None), ()),
 ('AbstractImplementationDataTypeElementRef', 'TARGET-DATA-PROTOTYPE-REF'): ((('DEST',), None), ()),
 ('AbstractProvidedPortPrototypeRef', 'CONTEXT-P-PORT-REF'): ((('DEST',), None), ()),
 ('AbstractRequiredPortPrototypeRef', 'CONTEXT-PORT-REF'): ((('DEST',), None), ()),
 ('AbstractRequiredPortPrototypeRef', 'CONTEXT-R-PORT-REF'): ((('DEST',), None), ()),
 ('Annotation', 'ANNOTATION'): (((), (False, (('LABEL', None, False), ('ANNOTATION-ORIGIN', ((), None), False), ('ANNOTATION-TEXT', None, False)))),
                                (('label', 'LABEL'), ('origin', 'ANNOTATION-ORIGIN'), ('text', 'ANNOTATION-TEXT'))),
 ('ApplicationArrayDataType', 'APPLICATION-ARRAY-DATA-TYPE'): ((('UUID',),
                                                                (False,
                                                                 (('SHORT-NAME', ((), None), False),
                                                                  ('LONG-NAME', None, False),
                                                                  ('DESC', None, False),
                                                                  ('CATEGORY', ((), None), False),
                                                                  ('INTRODUCTION', None, False),
                                                                  ('ANNOTATIONS', ((), (False, (('ANNOTATION', None, True),))), False),
                                                                  ('SW-DATA-DEF-PROPS', None, False),
                                                                  ('DYNAMIC-ARRAY-SIZE-PROFILE', ((), None), False),
                                                                  ('ELEMENT', None, False)))),
                                                               (('name', 'SHORT-NAME'),
                                                                ('dynamic_array_size_profile', 'DYNAMIC-ARRAY-SIZE-PROFILE'),
                                                                ('element', 'ELEMENT'),
                                                                ('sw_data_def_props', 'SW-DATA-DEF-PROPS'),
                                                                ('desc', 'DESC'),
                                                                ('category', 'CATEGORY'),
                                                                ('uuid', '@UUID'),
                                                                ('introduction', 'INTRODUCTION'),
                                                                ('annotations', 'ANNOTATIONS'),
                                                                ('long_name', 'LONG-NAME'))),
 ('ApplicationArrayElement', 'ELEMENT'): ((('UUID',),
                                           (False,
                                            (('SHORT-NAME', ((), None), False),
                                             ('LONG-NAME', None, False),
                                             ('DESC', None, False),
                                             ('CATEGORY', ((), None), False),
                                             ('INTRODUCTION', None, False),
                                             ('ANNOTATIONS', ((), (False, (('ANNOTATION', None, True),))), False),
                                             ('SW-DATA-DEF-PROPS', None, False),
                                             ('TYPE-TREF', None, False),
                                             ('ARRAY-SIZE-HANDLING', ((), None), False),
                                             ('ARRAY-SIZE-SEMANTICS', ((), None), False),
                                             ('INDEX-DATA-TYPE-REF', (('DEST',), None), False),
                                             ('MAX-NUMBER-OF-ELEMENTS', ((), None), False)))),
                                          (('name', 'SHORT-NAME'),
                                           ('max_number_of_elements', 'MAX-NUMBER-OF-ELEMENTS'),
                                           ('array_size_handling', 'ARRAY-SIZE-HANDLING'),
                                           ('array_size_semantics', 'ARRAY-SIZE-SEMANTICS'),
                                           ('index_data_type_ref', 'INDEX-DATA-TYPE-REF'),
                                           ('type_ref', 'TYPE-TREF'),
                                           ('sw_data_def_props', 'SW-DATA-DEF-PROPS'),
                                           ('desc', 'DESC'),
                                           ('category', 'CATEGORY'),
                                           ('uuid', '@UUID'),
                                           ('introduction', 'INTRODUCTION'),
                                           ('annotations', 'ANNOTATIONS'),
                                           ('long_name', 'LONG-NAME'))),
 ('ApplicationArrayElementRef', 'APPLICATION-ARRAY-ELEMENT-REF'): ((('DEST',), None), ()),
 ('ApplicationCompositeElementDataPrototypeRef', 'CONTEXT-DATA-PROTOTYPE-REF'): ((('DEST',), None), ()),
 ('ApplicationDataTypeRef', 'APPLICATION-DATA-TYPE-REF'): ((('DEST',), None), ()),
 ('ApplicationDataTypeRef', 'TYPE-TREF'): ((('DEST',), None), ()),
 ('ApplicationError', 'APPLICATION-ERROR'): ((('UUID',),
                                              (False,
                                               (('SHORT-NAME', ((), None), False),
                                                ('LONG-NAME', None, False),
                                                ('DESC', None, False),
                                                ('CATEGORY', ((), None), False),
                                                ('INTRODUCTION', None, False),
                                                ('ANNOTATIONS', ((), (False, (('ANNOTATION', None, True),))), False),
                                                ('ERROR-CODE', ((), None), False)))),
                                             (('name', 'SHORT-NAME'),
                                              ('error_code', 'ERROR-CODE'),
                                              ('desc', 'DESC'),
                                              ('category', 'CATEGORY'),
                                              ('uuid', '@UUID'),
                                              ('introduction', 'INTRODUCTION'),
                                              ('annotations', 'ANNOTATIONS'),
                                              ('long_name', 'LONG-NAME'))),
 ('ApplicationErrorRef', 'POSSIBLE-ERROR-REF'): ((('DEST',), None), ()),
 ('ApplicationPrimitiveDataType', 'APPLICATION-PRIMITIVE-DATA-TYPE'): ((('UUID',),
                                                                        (False,
                                                                         (('SHORT-NAME', ((), None), False),
                                                                          ('LONG-NAME', None, False),
                                                                          ('DESC', None, False),
                                                                          ('CATEGORY', ((), None), False),
                                                                          ('INTRODUCTION', None, False),
                                                                          ('ANNOTATIONS', ((), (False, (('ANNOTATION', None, True),))), False),
                                                                          ('SW-DATA-DEF-PROPS', None, False)))),
                                                                       (('name', 'SHORT-NAME'),
                                                                        ('sw_data_def_props', 'SW-DATA-DEF-PROPS'),
                                                                        ('desc', 'DESC'),
                                                                        ('category', 'CATEGORY'),
                                                                        ('uuid', '@UUID'),
                                                                        ('introduction', 'INTRODUCTION'),
                                                                        ('annotations', 'ANNOTATIONS'),
                                                                        ('long_name', 'LONG-NAME'))),
 ('ApplicationRecordDataType', 'APPLICATION-RECORD-DATA-TYPE'): ((('UUID',),
                                                                  (False,
                                                                   (('SHORT-NAME', ((), None), False),
                                                                    ('LONG-NAME', None, False),
                                                                    ('DESC', None, False),
                                                                    ('CATEGORY', ((), None), False),
                                                                    ('INTRODUCTION', None, False),
                                                                    ('ANNOTATIONS', ((), (False, (('ANNOTATION', None, True),))), False),
                                                                    ('SW-DATA-DEF-PROPS', None, False),
                                                                    ('ELEMENTS',
                                                                     ((), (False, (('APPLICATION-RECORD-ELEMENT', None, True),))),
                                                                     False)))),
                                                                 (('name', 'SHORT-NAME'),
                                                                  ('elements', 'ELEMENTS'),
                                                                  ('sw_data_def_props', 'SW-DATA-DEF-PROPS'),
                                                                  ('desc', 'DESC'),
                                                                  ('category', 'CATEGORY'),
                                                                  ('uuid', '@UUID'),
                                                                  ('introduction', 'INTRODUCTION'),
                                                                  ('annotations', 'ANNOTATIONS'),
                                                                  ('long_name', 'LONG-NAME'))),
 ('ApplicationRecordElement', 'APPLICATION-RECORD-ELEMENT'): ((('UUID',),
                                                               (False,
                                                                (('SHORT-NAME', ((), None), False),
                                                                 ('LONG-NAME', None, False),
                                                                 ('DESC', None, False),
                                                                 ('CATEGORY', ((), None), False),
                                                                 ('INTRODUCTION', None, False),
                                                                 ('ANNOTATIONS', ((), (False, (('ANNOTATION', None, True),))), False),
                                                                 ('SW-DATA-DEF-PROPS', None, False),
                                                                 ('TYPE-TREF', None, False),
                                                                 ('IS-OPTIONAL', ((), None), False)))),
                                                              (('name', 'SHORT-NAME'),
                                                               ('is_optional', 'IS-OPTIONAL'),
                                                               ('type_ref', 'TYPE-TREF'),
                                                               ('sw_data_def_props', 'SW-DATA-DEF-PROPS'),
                                                               ('desc', 'DESC'),
                                                               ('category', 'CATEGORY'),
                                                               ('uuid', '@UUID'),
                                                               ('introduction', 'INTRODUCTION'),
                                                               ('annotations', 'ANNOTATIONS'),
                                                               ('long_name', 'LONG-NAME'))),
 ('ApplicationRecordElementRef', 'X-REF'): ((('DEST',), None), ()),
 ('ApplicationSoftwareComponentType', 'APPLICATION-SW-COMPONENT-TYPE'): ((('UUID',),
                                                                          (False,
                                                                           (('SHORT-NAME', ((), None), False),
                                                                            ('LONG-NAME', None, False),
                                                                            ('DESC', None, False),
                                                                            ('CATEGORY', ((), None), False),
                                                                            ('INTRODUCTION', None, False),
                                                                            ('ANNOTATIONS', ((), (False, (('ANNOTATION', None, True),))), False),
                                                                            ('PORTS',
                                                                             ((),
                                                                              (True,
                                                                               (('P-PORT-PROTOTYPE', None, True),
                                                                                ('R-PORT-PROTOTYPE', None, True),
                                                                                ('PR-PORT-PROTOTYPE', None, True)))),
                                                                             False),
                                                                            ('INTERNAL-BEHAVIORS',
                                                                             ((), (False, (('SWC-INTERNAL-BEHAVIOR', None, False),))),
                                                                             False),
                                                                            ('SYMBOL-PROPS', None, False)))),
                                                                         (('name', 'SHORT-NAME'),
                                                                          ('internal_behavior', 'INTERNAL-BEHAVIORS'),
                                                                          ('symbol_props', 'SYMBOL-PROPS'),
                                                                          ('ports', 'PORTS'),
                                                                          ('desc', 'DESC'),
                                                                          ('category', 'CATEGORY'),
                                                                          ('uuid', '@UUID'),
                                                                          ('introduction', 'INTRODUCTION'),
                                                                          ('annotations', 'ANNOTATIONS'),
                                                                          ('long_name', 'LONG-NAME'))),
 ('ApplicationValueSpecification', 'APPLICATION-VALUE-SPECIFICATION'): (((),
                                                                         (False,
                                                                          (('SHORT-LABEL', ((), None), False),
                                                                           ('CATEGORY', ((), None), False),
                                                                           ('SW-AXIS-CONTS', ((), (False, (('SW-AXIS-CONT', None, True),))), False),
                                                                           ('SW-VALUE-CONT', None, False)))),
                                                                        (('label', 'SHORT-LABEL'),
                                                                         ('category', 'CATEGORY'),
                                                                         ('sw_axis_conts', 'SW-AXIS-CONTS'),
                                                                         ('sw_value_cont', 'SW-VALUE-CONT'))),
 ('ArVariableInImplementationDataInstanceRef', 'AUTOSAR-VARIABLE-IN-IMPL-DATATYPE'): (((),
                                                                                       (False,
                                                                                        (('PORT-PROTOTYPE-REF', None, False),
                                                                                         ('ROOT-VARIABLE-DATA-PROTOTYPE-REF', None, False),
                                                                                         ('CONTEXT-DATA-PROTOTYPE-REFS',
                                                                                          ((),
                                                                                           (False, (('CONTEXT-DATA-PROTOTYPE-REF', None, True),))),
                                                                                          False),
                                                                                         ('TARGET-DATA-PROTOTYPE-REF', None, False)))),
                                                                                      (('port_prototype_ref', 'PORT-PROTOTYPE-REF'),
                                                                                       ('root_variable_data_prototype_ref',
                                                                                        'ROOT-VARIABLE-DATA-PROTOTYPE-REF'),
                                                                                       ('context_data_prototype_refs', 'CONTEXT-DATA-PROTOTYPE-REFS'),
                                                                                       ('target_data_prototype_ref', 'TARGET-DATA-PROTOTYPE-REF'))),
 ('ArgumentDataPrototype', 'ARGUMENT-DATA-PROTOTYPE'): ((('UUID',),
                                                         (False,
                                                          (('SHORT-NAME', ((), None), False),
                                                           ('LONG-NAME', None, False),
                                                           ('DESC', None, False),
                                                           ('CATEGORY', ((), None), False),
                                                           ('INTRODUCTION', None, False),
                                                           ('ANNOTATIONS', ((), (False, (('ANNOTATION', None, True),))), False),
                                                           ('SW-DATA-DEF-PROPS', None, False),
                                                           ('TYPE-TREF', (('DEST',), None), False),
                                                           ('DIRECTION', ((), None), False),
                                                           ('SERVER-ARGUMENT-IMPL-POLICY', ((), None), False)))),
                                                        (('name', 'SHORT-NAME'),
                                                         ('direction', 'DIRECTION'),
                                                         ('server_arg_impl_policy', 'SERVER-ARGUMENT-IMPL-POLICY'),
                                                         ('type_ref', 'TYPE-TREF'),
                                                         ('sw_data_def_props', 'SW-DATA-DEF-PROPS'),
                                                         ('desc', 'DESC'),
                                                         ('category', 'CATEGORY'),
                                                         ('uuid', '@UUID'),
                                                         ('introduction', 'INTRODUCTION'),
                                                         ('annotations', 'ANNOTATIONS'),
                                                         ('long_name', 'LONG-NAME'))),
 ('ArgumentDataPrototypeRef', 'X-REF'): ((('DEST',), None), ()),
 ('ArrayValueSpecification', 'ARRAY-VALUE-SPECIFICATION'): (((),
                                                             (False,
                                                              (('SHORT-LABEL', ((), None), False),
                                                               ('ELEMENTS',
                                                                ((),
                                                                 (True,
                                                                  (('TEXT-VALUE-SPECIFICATION', None, True),
                                                                   ('NUMERICAL-VALUE-SPECIFICATION', None, True),
                                                                   ('NOT-AVAILABLE-VALUE-SPECIFICATION', None, True),
                                                                   ('ARRAY-VALUE-SPECIFICATION', None, True),
                                                                   ('RECORD-VALUE-SPECIFICATION', None, True),
                                                                   ('APPLICATION-VALUE-SPECIFICATION', None, True),
                                                                   ('CONSTANT-REFERENCE', None, True)))),
                                                                False)))),
                                                            (('label', 'SHORT-LABEL'), ('elements', 'ELEMENTS'))),
 ('AssemblySwConnector', 'ASSEMBLY-SW-CONNECTOR'): ((('UUID',),
                                                     (False,
                                                      (('SHORT-NAME', ((), None), False),
                                                       ('LONG-NAME', None, False),
                                                       ('DESC', None, False),
                                                       ('CATEGORY', ((), None), False),
                                                       ('INTRODUCTION', None, False),
                                                       ('ANNOTATIONS', ((), (False, (('ANNOTATION', None, True),))), False),
                                                       ('PROVIDER-IREF',
                                                        ((),
                                                         (False,
                                                          (('CONTEXT-COMPONENT-REF', None, False), ('TARGET-P-PORT-REF', (('DEST',), None), False)))),
                                                        False),
                                                       ('REQUESTER-IREF',
                                                        ((),
                                                         (False,
                                                          (('CONTEXT-COMPONENT-REF', None, False), ('TARGET-R-PORT-REF', (('DEST',), None), False)))),
                                                        False)))),
                                                    (('name', 'SHORT-NAME'),
                                                     ('provide_port', 'PROVIDER-IREF'),
                                                     ('require_port', 'REQUESTER-IREF'),
                                                     ('desc', 'DESC'),
                                                     ('category', 'CATEGORY'),
                                                     ('uuid', '@UUID'),
                                                     ('introduction', 'INTRODUCTION'),
                                                     ('annotations', 'ANNOTATIONS'),
                                                     ('long_name', 'LONG-NAME'))),
 ('AsynchronousServerCallPoint', 'ASYNCHRONOUS-SERVER-CALL-POINT'): ((('UUID',),
                                                                      (False,
                                                                       (('SHORT-NAME', ((), None), False),
                                                                        ('LONG-NAME', None, False),
                                                                        ('DESC', None, False),
                                                                        ('CATEGORY', ((), None), False),
                                                                        ('INTRODUCTION', None, False),
                                                                        ('ANNOTATIONS', ((), (False, (('ANNOTATION', None, True),))), False),
                                                                        ('RETURN-VALUE-PROVISION', ((), None), False),
                                                                        ('OPERATION-IREF', None, False),
                                                                        ('TIMEOUT', ((), None), False)))),
                                                                     (('name', 'SHORT-NAME'),
                                                                      ('operation', 'OPERATION-IREF'),
                                                                      ('timeout', 'TIMEOUT'),
                                                                      ('return_value_provision', 'RETURN-VALUE-PROVISION'),
                                                                      ('desc', 'DESC'),
                                                                      ('category', 'CATEGORY'),
                                                                      ('uuid', '@UUID'),
                                                                      ('introduction', 'INTRODUCTION'),
                                                                      ('annotations', 'ANNOTATIONS'),
                                                                      ('long_name', 'LONG-NAME'))),
 ('AsynchronousServerCallPointRef', 'ASYNCHRONOUS-SERVER-CALL-POINT-REF'): ((('DEST',), None), ()),
 ('AsynchronousServerCallResultPoint', 'ASYNCHRONOUS-SERVER-CALL-RESULT-POINT'): ((('UUID',),
                                                                                   (False,
                                                                                    (('SHORT-NAME', ((), None), False),
                                                                                     ('LONG-NAME', None, False),
                                                                                     ('DESC', None, False),
                                                                                     ('CATEGORY', ((), None), False),
                                                                                     ('INTRODUCTION', None, False),
                                                                                     ('ANNOTATIONS',
                                                                                      ((), (False, (('ANNOTATION', None, True),))),
                                                                                      False),
                                                                                     ('RETURN-VALUE-PROVISION', ((), None), False),
                                                                                     ('ASYNCHRONOUS-SERVER-CALL-POINT-REF',
                                                                                      (('DEST',), None),
                                                                                      False)))),
                                                                                  (('name', 'SHORT-NAME'),
                                                                                   ('async_server_call_point', 'ASYNCHRONOUS-SERVER-CALL-POINT-REF'),
                                                                                   ('return_value_provision', 'RETURN-VALUE-PROVISION'),
                                                                                   ('desc', 'DESC'),
                                                                                   ('category', 'CATEGORY'),
                                                                                   ('uuid', '@UUID'),
                                                                                   ('introduction', 'INTRODUCTION'),
                                                                                   ('annotations', 'ANNOTATIONS'),
                                                                                   ('long_name', 'LONG-NAME'))),
 ('AsynchronousServerCallResultPointRef', 'EVENT-SOURCE-REF'): ((('DEST',), None), ()),
 ('AsynchronousServerCallReturnsEvent', 'ASYNCHRONOUS-SERVER-CALL-RETURNS-EVENT'): ((('UUID',),
                                                                                     (False,
                                                                                      (('SHORT-NAME', ((), None), False),
                                                                                       ('LONG-NAME', None, False),
                                                                                       ('DESC', None, False),
                                                                                       ('CATEGORY', ((), None), False),
                                                                                       ('INTRODUCTION', None, False),
                                                                                       ('ANNOTATIONS',
                                                                                        ((), (False, (('ANNOTATION', None, True),))),
                                                                                        False),
                                                                                       ('DISABLED-MODE-IREFS',
                                                                                        ((), (False, (('DISABLED-MODE-IREF', None, True),))),
                                                                                        False),
                                                                                       ('START-ON-EVENT-REF', (('DEST',), None), False),
                                                                                       ('EVENT-SOURCE-REF', (('DEST',), None), False)))),
                                                                                    (('name', 'SHORT-NAME'),
                                                                                     ('start_on_event', 'START-ON-EVENT-REF'),
                                                                                     ('event_source', 'EVENT-SOURCE-REF'),
                                                                                     ('disabled_modes', 'DISABLED-MODE-IREFS'),
                                                                                     ('desc', 'DESC'),
                                                                                     ('category', 'CATEGORY'),
                                                                                     ('uuid', '@UUID'),
                                                                                     ('introduction', 'INTRODUCTION'),
                                                                                     ('annotations', 'ANNOTATIONS'),
                                                                                     ('long_name', 'LONG-NAME'))),
 ('AutosarDataPrototypeRef', 'DATA-ELEMENT-REF'): ((('DEST',), None), ()),
 ('AutosarDataTypeRef', 'TYPE-TREF'): ((('DEST',), None), ()),
 ('AutosarEngineeringObject', 'AUTOSAR-ENGINEERING-OBJECT'): (((), (False, (('SHORT-LABEL', ((), None), False), ('CATEGORY', ((), None), False)))),
                                                              (('label', 'SHORT-LABEL'), ('category', 'CATEGORY'))),
 ('AutosarParameterRef', 'ACCESSED-PARAMETER'): (((),
                                                  (False,
                                                   (('AUTOSAR-PARAMETER-IREF', None, False), ('LOCAL-PARAMETER-REF', (('DEST',), None), False)))),
                                                 (('autosar_parameter', 'AUTOSAR-PARAMETER-IREF'), ('local_parameter', 'LOCAL-PARAMETER-REF'))),
 ('AutosarVariableRef', 'ACCESSED-VARIABLE'): (((),
                                                (False,
                                                 (('AUTOSAR-VARIABLE-IN-IMPL-DATATYPE', None, False),
                                                  ('AUTOSAR-VARIABLE-IREF', None, False),
                                                  ('LOCAL-VARIABLE-REF', None, False)))),
                                               (('ar_variable_in_impl_datatype', 'AUTOSAR-VARIABLE-IN-IMPL-DATATYPE'),
                                                ('ar_variable_iref', 'AUTOSAR-VARIABLE-IREF'),
                                                ('local_variable_ref', 'LOCAL-VARIABLE-REF'))),
 ('BackgroundEvent', 'BACKGROUND-EVENT'): ((('UUID',),
                                            (False,
                                             (('SHORT-NAME', ((), None), False),
                                              ('LONG-NAME', None, False),
                                              ('DESC', None, False),
                                              ('CATEGORY', ((), None), False),
                                              ('INTRODUCTION', None, False),
                                              ('ANNOTATIONS', ((), (False, (('ANNOTATION', None, True),))), False),
                                              ('DISABLED-MODE-IREFS', ((), (False, (('DISABLED-MODE-IREF', None, True),))), False),
                                              ('START-ON-EVENT-REF', (('DEST',), None), False)))),
                                           (('name', 'SHORT-NAME'),
                                            ('start_on_event', 'START-ON-EVENT-REF'),
                                            ('disabled_modes', 'DISABLED-MODE-IREFS'),
                                            ('desc', 'DESC'),
                                            ('category', 'CATEGORY'),
                                            ('uuid', '@UUID'),
                                            ('introduction', 'INTRODUCTION'),
                                            ('annotations', 'ANNOTATIONS'),
                                            ('long_name', 'LONG-NAME'))),
 ('Break', 'BR'): (((), None), ()),
 ('ClientComSpec', 'CLIENT-COM-SPEC'): (((),
                                         (False,
                                          (('END-TO-END-CALL-RESPONSE-TIMEOUT', ((), None), False),
                                           ('OPERATION-REF', (('DEST',), None), False),
                                           ('TRANSFORMATION-COM-SPEC-PROPSS',
                                            ((), (False, (('END-TO-END-TRANSFORMATION-COM-SPEC-PROPS', None, True),))),
                                            False)))),
                                        (('operation_ref', 'OPERATION-REF'),
                                         ('e2e_call_respone_timeout', 'END-TO-END-CALL-RESPONSE-TIMEOUT'),
                                         ('transformation_com_spec_props', 'TRANSFORMATION-COM-SPEC-PROPSS'))),
 ('ClientServerInterface', 'CLIENT-SERVER-INTERFACE'): ((('UUID',),
                                                         (False,
                                                          (('SHORT-NAME', ((), None), False),
                                                           ('LONG-NAME', None, False),
                                                           ('DESC', None, False),
                                                           ('CATEGORY', ((), None), False),
                                                           ('INTRODUCTION', None, False),
                                                           ('ANNOTATIONS', ((), (False, (('ANNOTATION', None, True),))), False),
                                                           ('IS-SERVICE', ((), None), False),
                                                           ('SERVICE-KIND', ((), None), False),
                                                           ('OPERATIONS', ((), (False, (('CLIENT-SERVER-OPERATION', None, True),))), False),
                                                           ('POSSIBLE-ERRORS', ((), (False, (('APPLICATION-ERROR', None, True),))), False)))),
                                                        (('name', 'SHORT-NAME'),
                                                         ('operations', 'OPERATIONS'),
                                                         ('possible_errors', 'POSSIBLE-ERRORS'),
                                                         ('is_service', 'IS-SERVICE'),
                                                         ('service_kind', 'SERVICE-KIND'),
                                                         ('desc', 'DESC'),
                                                         ('category', 'CATEGORY'),
                                                         ('uuid', '@UUID'),
                                                         ('introduction', 'INTRODUCTION'),
                                                         ('annotations', 'ANNOTATIONS'),
                                                         ('long_name', 'LONG-NAME'))),
 ('ClientServerOperation', 'CLIENT-SERVER-OPERATION'): ((('UUID',),
                                                         (False,
                                                          (('SHORT-NAME', ((), None), False),
                                                           ('LONG-NAME', None, False),
                                                           ('DESC', None, False),
                                                           ('CATEGORY', ((), None), False),
                                                           ('INTRODUCTION', None, False),
                                                           ('ANNOTATIONS', ((), (False, (('ANNOTATION', None, True),))), False),
                                                           ('ARGUMENTS', ((), (False, (('ARGUMENT-DATA-PROTOTYPE', None, True),))), False),
                                                           ('DIAG-ARG-INTEGRITY', ((), None), False),
                                                           ('FIRE-AND-FORGET', ((), None), False),
                                                           ('POSSIBLE-ERROR-REFS', ((), (False, (('POSSIBLE-ERROR-REF', None, True),))), False)))),
                                                        (('name', 'SHORT-NAME'),
                                                         ('arguments', 'ARGUMENTS'),
                                                         ('diag_arg_integrity', 'DIAG-ARG-INTEGRITY'),
                                                         ('fire_and_forget', 'FIRE-AND-FORGET'),
                                                         ('possible_error_refs', 'POSSIBLE-ERROR-REFS'),
                                                         ('desc', 'DESC'),
                                                         ('category', 'CATEGORY'),
                                                         ('uuid', '@UUID'),
                                                         ('introduction', 'INTRODUCTION'),
                                                         ('annotations', 'ANNOTATIONS'),
                                                         ('long_name', 'LONG-NAME'))),
 ('ClientServerOperationRef', 'OPERATION-REF'): ((('DEST',), None), ()),
 ('ClientServerOperationRef', 'TARGET-PROVIDED-OPERATION-REF'): ((('DEST',), None), ()),
 ('ClientServerOperationRef', 'TARGET-REQUIRED-OPERATION-REF'): ((('DEST',), None), ()),
 ('Code', 'CODE'): ((('UUID',),
                     (False,
                      (('SHORT-NAME', ((), None), False),
                       ('LONG-NAME', None, False),
                       ('DESC', None, False),
                       ('CATEGORY', ((), None), False),
                       ('INTRODUCTION', None, False),
                       ('ANNOTATIONS', ((), (False, (('ANNOTATION', None, True),))), False),
                       ('ARTIFACT-DESCRIPTORS', ((), (False, (('AUTOSAR-ENGINEERING-OBJECT', None, True),))), False)))),
                    (('name', 'SHORT-NAME'),
                     ('artifact_descriptors', 'ARTIFACT-DESCRIPTORS'),
                     ('desc', 'DESC'),
                     ('category', 'CATEGORY'),
                     ('uuid', '@UUID'),
                     ('introduction', 'INTRODUCTION'),
                     ('annotations', 'ANNOTATIONS'),
                     ('long_name', 'LONG-NAME'))),
 ('CommunicationBufferLocking', 'COMMUNICATION-BUFFER-LOCKING'): (((), (False, (('SUPPORT-BUFFER-LOCKING', ((), None), False),))),
                                                                  (('support_buffer_locking', 'SUPPORT-BUFFER-LOCKING'),)),
 ('CompositionSwComponentType', 'COMPOSITION-SW-COMPONENT-TYPE'): ((('UUID',),
                                                                    (False,
                                                                     (('SHORT-NAME', ((), None), False),
                                                                      ('LONG-NAME', None, False),
                                                                      ('DESC', None, False),
                                                                      ('CATEGORY', ((), None), False),
                                                                      ('INTRODUCTION', None, False),
                                                                      ('ANNOTATIONS', ((), (False, (('ANNOTATION', None, True),))), False),
                                                                      ('PORTS',
                                                                       ((),
                                                                        (True,
                                                                         (('P-PORT-PROTOTYPE', None, True),
                                                                          ('R-PORT-PROTOTYPE', None, True),
                                                                          ('PR-PORT-PROTOTYPE', None, True)))),
                                                                       False),
                                                                      ('COMPONENTS', ((), (False, (('SW-COMPONENT-PROTOTYPE', None, True),))), False),
                                                                      ('CONNECTORS',
                                                                       ((),
                                                                        (True,
                                                                         (('ASSEMBLY-SW-CONNECTOR', None, True),
                                                                          ('DELEGATION-SW-CONNECTOR', None, True),
                                                                          ('PASS-THROUGH-SW-CONNECTOR', None, True)))),
                                                                       False)))),
                                                                   (('name', 'SHORT-NAME'),
                                                                    ('components', 'COMPONENTS'),
                                                                    ('connectors', 'CONNECTORS'),
                                                                    ('ports', 'PORTS'),
                                                                    ('desc', 'DESC'),
                                                                    ('category', 'CATEGORY'),
                                                                    ('uuid', '@UUID'),
                                                                    ('introduction', 'INTRODUCTION'),
                                                                    ('annotations', 'ANNOTATIONS'),
                                                                    ('long_name', 'LONG-NAME'))),
 ('CompuConst', 'COMPU-CONST'): (((), (False, (('VT', ((), None), False), ('V', ((), None), False)))), ()),
 ('CompuConst', 'COMPU-DEFAULT-VALUE'): (((), (False, (('VT', ((), None), False), ('V', ((), None), False)))), ()),
 ('CompuConst', 'COMPU-INVERSE-VALUE'): (((), (False, (('VT', ((), None), False), ('V', ((), None), False)))), ()),
 ('CompuMethod', 'COMPU-METHOD'): ((('UUID',),
                                    (False,
                                     (('SHORT-NAME', ((), None), False),
                                      ('LONG-NAME', None, False),
                                      ('DESC', None, False),
                                      ('CATEGORY', ((), None), False),
                                      ('INTRODUCTION', None, False),
                                      ('ANNOTATIONS', ((), (False, (('ANNOTATION', None, True),))), False),
                                      ('DISPLAY-FORMAT', ((), None), False),
                                      ('UNIT-REF', (('DEST',), None), False),
                                      ('COMPU-INTERNAL-TO-PHYS', None, False),
                                      ('COMPU-PHYS-TO-INTERNAL', None, False)))),
                                   (('name', 'SHORT-NAME'),
                                    ('int_to_phys', 'COMPU-INTERNAL-TO-PHYS'),
                                    ('phys_to_int', 'COMPU-PHYS-TO-INTERNAL'),
                                    ('unit_ref', 'UNIT-REF'),
                                    ('display_format', 'DISPLAY-FORMAT'),
                                    ('desc', 'DESC'),
                                    ('category', 'CATEGORY'),
                                    ('uuid', '@UUID'),
                                    ('introduction', 'INTRODUCTION'),
                                    ('annotations', 'ANNOTATIONS'),
                                    ('long_name', 'LONG-NAME'))),
 ('CompuMethodRef', 'COMPU-METHOD-REF'): ((('DEST',), None), ()),
 ('CompuRational', 'COMPU-RATIONAL-COEFFS'): (((),
                                               (False,
                                                (('COMPU-NUMERATOR', ((), (False, (('V', ((), None), True),))), False),
                                                 ('COMPU-DENOMINATOR', ((), (False, (('V', ((), None), True),))), False)))),
                                              (('numerator', 'COMPU-NUMERATOR'), ('denominator', 'COMPU-DENOMINATOR'))),
 ('CompuScale', 'COMPU-SCALE'): (((),
                                  (False,
                                   (('SHORT-LABEL', ((), None), False),
                                    ('SYMBOL', ((), None), False),
                                    ('DESC', None, False),
                                    ('MASK', ((), None), False),
                                    ('LOWER-LIMIT', (('INTERVAL-TYPE',), None), False),
                                    ('UPPER-LIMIT', (('INTERVAL-TYPE',), None), False),
                                    ('COMPU-INVERSE-VALUE', None, False),
                                    ('COMPU-CONST', None, False),
                                    ('COMPU-RATIONAL-COEFFS', None, False)))),
                                 (('lower_limit', 'LOWER-LIMIT'),
                                  ('upper_limit', 'UPPER-LIMIT'),
                                  ('label', 'SHORT-LABEL'),
                                  ('symbol', 'SYMBOL'),
                                  ('desc', 'DESC'),
                                  ('mask', 'MASK'),
                                  ('inverse_value', 'COMPU-INVERSE-VALUE'))),
 ('Computation', 'COMPU-INTERNAL-TO-PHYS'): (((),
                                              (False,
                                               (('COMPU-SCALES', ((), (False, (('COMPU-SCALE', None, True),))), False),
                                                ('COMPU-DEFAULT-VALUE', None, False)))),
                                             (('compu_scales', 'COMPU-SCALES/COMPU-SCALE'), ('default_value', 'COMPU-DEFAULT-VALUE'))),
 ('Computation', 'COMPU-PHYS-TO-INTERNAL'): (((),
                                              (False,
                                               (('COMPU-SCALES', ((), (False, (('COMPU-SCALE', None, True),))), False),
                                                ('COMPU-DEFAULT-VALUE', None, False)))),
                                             (('compu_scales', 'COMPU-SCALES/COMPU-SCALE'), ('default_value', 'COMPU-DEFAULT-VALUE'))),
 ('ConstantRef', 'CONSTANT-REF'): ((('DEST',), None), ()),
 ('ConstantReference', 'CONSTANT-REFERENCE'): (((), (False, (('SHORT-LABEL', ((), None), False), ('CONSTANT-REF', None, False)))),
                                               (('constant_ref', 'CONSTANT-REF'), ('label', 'SHORT-LABEL'))),
 ('ConstantSpecification', 'CONSTANT-SPECIFICATION'): ((('UUID',),
                                                        (False,
                                                         (('SHORT-NAME', ((), None), False),
                                                          ('LONG-NAME', None, False),
                                                          ('DESC', None, False),
                                                          ('CATEGORY', ((), None), False),
                                                          ('INTRODUCTION', None, False),
                                                          ('ANNOTATIONS', ((), (False, (('ANNOTATION', None, True),))), False),
                                                          ('VALUE-SPEC',
                                                           ((),
                                                            (False,
                                                             (('TEXT-VALUE-SPECIFICATION', None, False),
                                                              ('NUMERICAL-VALUE-SPECIFICATION', None, False),
                                                              ('NOT-AVAILABLE-VALUE-SPECIFICATION', None, False),
                                                              ('ARRAY-VALUE-SPECIFICATION', None, False),
                                                              ('RECORD-VALUE-SPECIFICATION', None, False),
                                                              ('APPLICATION-VALUE-SPECIFICATION', None, False),
                                                              ('CONSTANT-REFERENCE', None, False)))),
                                                           False)))),
                                                       (('name', 'SHORT-NAME'),
                                                        ('value', 'VALUE-SPEC'),
                                                        ('desc', 'DESC'),
                                                        ('category', 'CATEGORY'),
                                                        ('uuid', '@UUID'),
                                                        ('introduction', 'INTRODUCTION'),
                                                        ('annotations', 'ANNOTATIONS'),
                                                        ('long_name', 'LONG-NAME'))),
 ('DataConstraint', 'DATA-CONSTR'): ((('UUID',),
                                      (False,
                                       (('SHORT-NAME', ((), None), False),
                                        ('LONG-NAME', None, False),
                                        ('DESC', None, False),
                                        ('CATEGORY', ((), None), False),
                                        ('INTRODUCTION', None, False),
                                        ('ANNOTATIONS', ((), (False, (('ANNOTATION', None, True),))), False),
                                        ('DATA-CONSTR-RULES', ((), (False, (('DATA-CONSTR-RULE', None, True),))), False)))),
                                     (('name', 'SHORT-NAME'),
                                      ('rules', 'DATA-CONSTR-RULES'),
                                      ('desc', 'DESC'),
                                      ('category', 'CATEGORY'),
                                      ('uuid', '@UUID'),
                                      ('introduction', 'INTRODUCTION'),
                                      ('annotations', 'ANNOTATIONS'),
                                      ('long_name', 'LONG-NAME'))),
 ('DataConstraintRef', 'DATA-CONSTR-REF'): ((('DEST',), None), ()),
 ('DataConstraintRule', 'DATA-CONSTR-RULE'): (((),
                                               (False,
                                                (('CONSTR-LEVEL', ((), None), False),
                                                 ('PHYS-CONSTRS', None, False),
                                                 ('INTERNAL-CONSTRS', None, False)))),
                                              (('internal', 'INTERNAL-CONSTRS'), ('physical', 'PHYS-CONSTRS'), ('level', 'CONSTR-LEVEL'))),
 ('DataFilter', 'DATA-FILTER'): (((),
                                  (False,
                                   (('DATA-FILTER-TYPE', ((), None), False),
                                    ('MASK', ((), None), False),
                                    ('MAX', ((), None), False),
                                    ('MIN', ((), None), False),
                                    ('OFFSET', ((), None), False),
                                    ('PERIOD', ((), None), False),
                                    ('X', ((), None), False)))),
                                 (('data_filter_type', 'DATA-FILTER-TYPE'),
                                  ('min_val', 'MIN'),
                                  ('max_val', 'MAX'),
                                  ('mask', 'MASK'),
                                  ('offset', 'OFFSET'),
                                  ('period', 'PERIOD'),
                                  ('x', 'X'))),
 ('DataFilter', 'FILTER'): (((),
                             (False,
                              (('DATA-FILTER-TYPE', ((), None), False),
                               ('MASK', ((), None), False),
                               ('MAX', ((), None), False),
                               ('MIN', ((), None), False),
                               ('OFFSET', ((), None), False),
                               ('PERIOD', ((), None), False),
                               ('X', ((), None), False)))),
                            (('data_filter_type', 'DATA-FILTER-TYPE'),
                             ('min_val', 'MIN'),
                             ('max_val', 'MAX'),
                             ('mask', 'MASK'),
                             ('offset', 'OFFSET'),
                             ('period', 'PERIOD'),
                             ('x', 'X'))),
 ('DataPrototypeRef', 'LOCAL-PARAMETER-REF'): ((('DEST',), None), ()),
 ('DataPrototypeRef', 'ROOT-PARAMETER-DATA-PROTOTYPE-REF'): ((('DEST',), None), ()),
 ('DataPrototypeRef', 'TARGET-DATA-PROTOTYPE-REF'): ((('DEST',), None), ()),
 ('DataReceiveErrorEvent', 'DATA-RECEIVE-ERROR-EVENT'): ((('UUID',),
                                                          (False,
                                                           (('SHORT-NAME', ((), None), False),
                                                            ('LONG-NAME', None, False),
                                                            ('DESC', None, False),
                                                            ('CATEGORY', ((), None), False),
                                                            ('INTRODUCTION', None, False),
                                                            ('ANNOTATIONS', ((), (False, (('ANNOTATION', None, True),))), False),
                                                            ('DISABLED-MODE-IREFS', ((), (False, (('DISABLED-MODE-IREF', None, True),))), False),
                                                            ('START-ON-EVENT-REF', (('DEST',), None), False),
                                                            ('DATA-IREF', None, False)))),
                                                         (('name', 'SHORT-NAME'),
                                                          ('start_on_event', 'START-ON-EVENT-REF'),
                                                          ('data', 'DATA-IREF'),
                                                          ('disabled_modes', 'DISABLED-MODE-IREFS'),
                                                          ('desc', 'DESC'),
                                                          ('category', 'CATEGORY'),
                                                          ('uuid', '@UUID'),
                                                          ('introduction', 'INTRODUCTION'),
                                                          ('annotations', 'ANNOTATIONS'),
                                                          ('long_name', 'LONG-NAME'))),
 ('DataReceivedEvent', 'DATA-RECEIVED-EVENT'): ((('UUID',),
                                                 (False,
                                                  (('SHORT-NAME', ((), None), False),
                                                   ('LONG-NAME', None, False),
                                                   ('DESC', None, False),
                                                   ('CATEGORY', ((), None), False),
                                                   ('INTRODUCTION', None, False),
                                                   ('ANNOTATIONS', ((), (False, (('ANNOTATION', None, True),))), False),
                                                   ('DISABLED-MODE-IREFS', ((), (False, (('DISABLED-MODE-IREF', None, True),))), False),
                                                   ('START-ON-EVENT-REF', (('DEST',), None), False),
                                                   ('DATA-IREF', None, False)))),
                                                (('name', 'SHORT-NAME'),
                                                 ('start_on_event', 'START-ON-EVENT-REF'),
                                                 ('data', 'DATA-IREF'),
                                                 ('disabled_modes', 'DISABLED-MODE-IREFS'),
                                                 ('desc', 'DESC'),
                                                 ('category', 'CATEGORY'),
                                                 ('uuid', '@UUID'),
                                                 ('introduction', 'INTRODUCTION'),
                                                 ('annotations', 'ANNOTATIONS'),
                                                 ('long_name', 'LONG-NAME'))),
 ('DataSendCompletedEvent', 'DATA-SEND-COMPLETED-EVENT'): ((('UUID',),
                                                            (False,
                                                             (('SHORT-NAME', ((), None), False),
                                                              ('LONG-NAME', None, False),
                                                              ('DESC', None, False),
                                                              ('CATEGORY', ((), None), False),
                                                              ('INTRODUCTION', None, False),
                                                              ('ANNOTATIONS', ((), (False, (('ANNOTATION', None, True),))), False),
                                                              ('DISABLED-MODE-IREFS', ((), (False, (('DISABLED-MODE-IREF', None, True),))), False),
                                                              ('START-ON-EVENT-REF', (('DEST',), None), False),
                                                              ('EVENT-SOURCE-REF', (('DEST',), None), False)))),
                                                           (('name', 'SHORT-NAME'),
                                                            ('start_on_event', 'START-ON-EVENT-REF'),
                                                            ('event_source', 'EVENT-SOURCE-REF'),
                                                            ('disabled_modes', 'DISABLED-MODE-IREFS'),
                                                            ('desc', 'DESC'),
                                                            ('category', 'CATEGORY'),
                                                            ('uuid', '@UUID'),
                                                            ('introduction', 'INTRODUCTION'),
                                                            ('annotations', 'ANNOTATIONS'),
                                                            ('long_name', 'LONG-NAME'))),
 ('DataTypeMap', 'DATA-TYPE-MAP'): (((),
                                     (False,
                                      (('APPLICATION-DATA-TYPE-REF', (('DEST',), None), False),
                                       ('IMPLEMENTATION-DATA-TYPE-REF', (('DEST',), None), False)))),
                                    (('appl_data_type_ref', 'APPLICATION-DATA-TYPE-REF'), ('impl_data_type_ref', 'IMPLEMENTATION-DATA-TYPE-REF'))),
 ('DataTypeMappingSet', 'DATA-TYPE-MAPPING-SET'): ((('UUID',),
                                                    (False,
                                                     (('SHORT-NAME', ((), None), False),
                                                      ('LONG-NAME', None, False),
                                                      ('DESC', None, False),
                                                      ('CATEGORY', ((), None), False),
                                                      ('INTRODUCTION', None, False),
                                                      ('ANNOTATIONS', ((), (False, (('ANNOTATION', None, True),))), False),
                                                      ('DATA-TYPE-MAPS', ((), (False, (('DATA-TYPE-MAP', None, True),))), False)))),
                                                   (('name', 'SHORT-NAME'),
                                                    ('data_type_maps', 'DATA-TYPE-MAPS'),
                                                    ('desc', 'DESC'),
                                                    ('category', 'CATEGORY'),
                                                    ('uuid', '@UUID'),
                                                    ('introduction', 'INTRODUCTION'),
                                                    ('annotations', 'ANNOTATIONS'),
                                                    ('long_name', 'LONG-NAME'))),
 ('DataTypeMappingSetRef', 'DATA-TYPE-MAPPING-REF'): ((('DEST',), None), ()),
 ('DataWriteCompletedEvent', 'DATA-WRITE-COMPLETED-EVENT'): ((('UUID',),
                                                              (False,
                                                               (('SHORT-NAME', ((), None), False),
                                                                ('LONG-NAME', None, False),
                                                                ('DESC', None, False),
                                                                ('CATEGORY', ((), None), False),
                                                                ('INTRODUCTION', None, False),
                                                                ('ANNOTATIONS', ((), (False, (('ANNOTATION', None, True),))), False),
                                                                ('DISABLED-MODE-IREFS', ((), (False, (('DISABLED-MODE-IREF', None, True),))), False),
                                                                ('START-ON-EVENT-REF', (('DEST',), None), False),
                                                                ('EVENT-SOURCE-REF', (('DEST',), None), False)))),
                                                             (('name', 'SHORT-NAME'),
                                                              ('start_on_event', 'START-ON-EVENT-REF'),
                                                              ('event_source', 'EVENT-SOURCE-REF'),
                                                              ('disabled_modes', 'DISABLED-MODE-IREFS'),
                                                              ('desc', 'DESC'),
                                                              ('category', 'CATEGORY'),
                                                              ('uuid', '@UUID'),
                                                              ('introduction', 'INTRODUCTION'),
                                                              ('annotations', 'ANNOTATIONS'),
                                                              ('long_name', 'LONG-NAME'))),
 ('DelegationSwConnector', 'DELEGATION-SW-CONNECTOR'): ((('UUID',),
                                                         (False,
                                                          (('SHORT-NAME', ((), None), False),
                                                           ('LONG-NAME', None, False),
                                                           ('DESC', None, False),
                                                           ('CATEGORY', ((), None), False),
                                                           ('INTRODUCTION', None, False),
                                                           ('ANNOTATIONS', ((), (False, (('ANNOTATION', None, True),))), False),
                                                           ('INNER-PORT-IREF',
                                                            ((),
                                                             (False,
                                                              (('P-PORT-IN-COMPOSITION-INSTANCE-REF',
                                                                ((),
                                                                 (False,
                                                                  (('CONTEXT-COMPONENT-REF', None, False),
                                                                   ('TARGET-P-PORT-REF', (('DEST',), None), False)))),
                                                                False),
                                                               ('R-PORT-IN-COMPOSITION-INSTANCE-REF',
                                                                ((),
                                                                 (False,
                                                                  (('CONTEXT-COMPONENT-REF', None, False),
                                                                   ('TARGET-R-PORT-REF', (('DEST',), None), False)))),
                                                                False)))),
                                                            False),
                                                           ('OUTER-PORT-REF', None, False)))),
                                                        (('name', 'SHORT-NAME'),
                                                         ('outer_port', 'OUTER-PORT-REF'),
                                                         ('desc', 'DESC'),
                                                         ('category', 'CATEGORY'),
                                                         ('uuid', '@UUID'),
                                                         ('introduction', 'INTRODUCTION'),
                                                         ('annotations', 'ANNOTATIONS'),
                                                         ('long_name', 'LONG-NAME'))),
 ('DocumentationBlock', 'ANNOTATION-TEXT'): (((), (True, (('P', None, True), ('VERBATIM', None, True)))), ()),
 ('DocumentationBlock', 'INTRODUCTION'): (((), (True, (('P', None, True), ('VERBATIM', None, True)))), ()),
 ('E2EProfileCompatibilityProps', 'E-2-E-PROFILE-COMPATIBILITY-PROPS'): ((('UUID',),
                                                                          (False,
                                                                           (('SHORT-NAME', ((), None), False),
                                                                            ('LONG-NAME', None, False),
                                                                            ('DESC', None, False),
                                                                            ('CATEGORY', ((), None), False),
                                                                            ('INTRODUCTION', None, False),
                                                                            ('ANNOTATIONS', ((), (False, (('ANNOTATION', None, True),))), False),
                                                                            ('TRANSIT-TO-INVALID-EXTENDED', ((), None), False)))),
                                                                         (('name', 'SHORT-NAME'),
                                                                          ('transit_to_invalid_extended', 'TRANSIT-TO-INVALID-EXTENDED'),
                                                                          ('desc', 'DESC'),
                                                                          ('category', 'CATEGORY'),
                                                                          ('uuid', '@UUID'),
                                                                          ('introduction', 'INTRODUCTION'),
                                                                          ('annotations', 'ANNOTATIONS'),
                                                                          ('long_name', 'LONG-NAME'))),
 ('E2EProfileCompatibilityPropsRef', 'E-2-E-PROFILE-COMPATIBILITY-PROPS-REF'): ((('DEST',), None), ()),
 ('EmphasisText', 'E'): ((('COLOR', 'FONT', 'TYPE'), None), (('color', '@COLOR'), ('font', '@FONT'), ('type', '@TYPE'))),
 ('EndToEndTransformationComSpecProps', 'END-TO-END-TRANSFORMATION-COM-SPEC-PROPS'): (((),
                                                                                       (False,
                                                                                        (('DESC', None, False),
                                                                                         ('CATEGORY', ((), None), False),
                                                                                         ('INTRODUCTION', None, False),
                                                                                         ('CLEAR-FROM-VALID-TO-INVALID', ((), None), False),
                                                                                         ('DISABLE-END-TO-END-CHECK', ((), None), False),
                                                                                         ('DISABLE-END-TO-END-STATE-MACHINE', ((), None), False),
                                                                                         ('E-2-E-PROFILE-COMPATIBILITY-PROPS-REF',
                                                                                          (('DEST',), None),
                                                                                          False),
                                                                                         ('MAX-DELTA-COUNTER', ((), None), False),
                                                                                         ('MAX-ERROR-STATE-INIT', ((), None), False),
                                                                                         ('MAX-ERROR-STATE-INVALID', ((), None), False),
                                                                                         ('MAX-ERROR-STATE-VALID', ((), None), False),
                                                                                         ('MAX-NO-NEW-OR-REPEATED-DATA', ((), None), False),
                                                                                         ('MIN-OK-STATE-INIT', ((), None), False),
                                                                                         ('MIN-OK-STATE-INVALID', ((), None), False),
                                                                                         ('MIN-OK-STATE-VALID', ((), None), False),
                                                                                         ('SYNC-COUNTER-INIT', ((), None), False),
                                                                                         ('WINDOW-SIZE', ((), None), False),
                                                                                         ('WINDOW-SIZE-INIT', ((), None), False),
                                                                                         ('WINDOW-SIZE-INVALID', ((), None), False),
                                                                                         ('WINDOW-SIZE-VALID', ((), None), False)))),
                                                                                      (('clear_from_valid_to_invalid', 'CLEAR-FROM-VALID-TO-INVALID'),
                                                                                       ('disable_e2e_check', 'DISABLE-END-TO-END-CHECK'),
                                                                                       ('disable_e2e_state_machine',
                                                                                        'DISABLE-END-TO-END-STATE-MACHINE'),
                                                                                       ('e2e_profile_compatibility_props_ref',
                                                                                        'E-2-E-PROFILE-COMPATIBILITY-PROPS-REF'),
                                                                                       ('max_delta_counter', 'MAX-DELTA-COUNTER'),
                                                                                       ('max_error_state_init', 'MAX-ERROR-STATE-INIT'),
                                                                                       ('max_error_state_invalid', 'MAX-ERROR-STATE-INVALID'),
                                                                                       ('max_error_state_valid', 'MAX-ERROR-STATE-VALID'),
                                                                                       ('max_no_new_repeated_data', 'MAX-NO-NEW-OR-REPEATED-DATA'),
                                                                                       ('min_ok_state_init', 'MIN-OK-STATE-INIT'),
                                                                                       ('min_ok_state_invalid', 'MIN-OK-STATE-INVALID'),
                                                                                       ('min_ok_state_valid', 'MIN-OK-STATE-VALID'),
                                                                                       ('sync_counter_init', 'SYNC-COUNTER-INIT'),
                                                                                       ('window_size', 'WINDOW-SIZE'),
                                                                                       ('window_size_init', 'WINDOW-SIZE-INIT'),
                                                                                       ('window_size_invalid', 'WINDOW-SIZE-INVALID'),
                                                                                       ('window_size_valid', 'WINDOW-SIZE-VALID'),
                                                                                       ('desc', 'DESC'),
                                                                                       ('category', 'CATEGORY'),
                                                                                       ('introduction', 'INTRODUCTION'))),
 ('ExclusiveArea', 'EXCLUSIVE-AREA'): ((('UUID',),
                                        (False,
                                         (('SHORT-NAME', ((), None), False),
                                          ('LONG-NAME', None, False),
                                          ('DESC', None, False),
                                          ('CATEGORY', ((), None), False),
                                          ('INTRODUCTION', None, False),
                                          ('ANNOTATIONS', ((), (False, (('ANNOTATION', None, True),))), False)))),
                                       (('name', 'SHORT-NAME'),
                                        ('desc', 'DESC'),
                                        ('category', 'CATEGORY'),
                                        ('uuid', '@UUID'),
                                        ('introduction', 'INTRODUCTION'),
                                        ('annotations', 'ANNOTATIONS'),
                                        ('long_name', 'LONG-NAME'))),
 ('ExclusiveAreaNestingOrderRef', 'CALLED-FROM-WITHIN-EXCLUSIVE-AREA-REF'): ((('DEST',), None), ()),
 ('ExclusiveAreaNestingOrderRef', 'EXCLUSIVE-AREA-NESTING-ORDER-REF'): ((('DEST',), None), ()),
 ('ExclusiveAreaRef', 'CAN-ENTER-EXCLUSIVE-AREA-REF'): ((('DEST',), None), ()),
 ('ExclusiveAreaRef', 'EXCLUSIVE-AREA-REF'): ((('DEST',), None), ()),
 ('ExclusiveAreaRef', 'RUNS-INSIDE-EXCLUSIVE-AREA-REF'): ((('DEST',), None), ()),
 ('ExclusiveAreaRefConditional', 'EXCLUSIVE-AREA-REF-CONDITIONAL'): (((), (False, (('EXCLUSIVE-AREA-REF', (('DEST',), None), False),))),
                                                                     (('exclusive_area', 'EXCLUSIVE-AREA-REF'),)),
 ('ExecutableEntityActivationReason', 'EXECUTABLE-ENTITY-ACTIVATION-REASON'): (((),
                                                                                (False,
                                                                                 (('SHORT-NAME', ((), None), False),
                                                                                  ('SYMBOL', ((), None), False),
                                                                                  ('BIT-POSITION', ((), None), False)))),
                                                                               (('name', 'SHORT-NAME'),
                                                                                ('bit_position', 'BIT-POSITION'),
                                                                                ('symbol', 'SYMBOL'))),
 ('ExternalTriggerOccurredEvent', 'EXTERNAL-TRIGGER-OCCURRED-EVENT'): ((('UUID',),
                                                                        (False,
                                                                         (('SHORT-NAME', ((), None), False),
                                                                          ('LONG-NAME', None, False),
                                                                          ('DESC', None, False),
                                                                          ('CATEGORY', ((), None), False),
                                                                          ('INTRODUCTION', None, False),
                                                                          ('ANNOTATIONS', ((), (False, (('ANNOTATION', None, True),))), False),
                                                                          ('DISABLED-MODE-IREFS',
                                                                           ((), (False, (('DISABLED-MODE-IREF', None, True),))),
                                                                           False),
                                                                          ('START-ON-EVENT-REF', (('DEST',), None), False),
                                                                          ('TRIGGER-IREF', None, False)))),
                                                                       (('name', 'SHORT-NAME'),
                                                                        ('start_on_event', 'START-ON-EVENT-REF'),
                                                                        ('trigger', 'TRIGGER-IREF'),
                                                                        ('disabled_modes', 'DISABLED-MODE-IREFS'),
                                                                        ('desc', 'DESC'),
                                                                        ('category', 'CATEGORY'),
                                                                        ('uuid', '@UUID'),
                                                                        ('introduction', 'INTRODUCTION'),
                                                                        ('annotations', 'ANNOTATIONS'),
                                                                        ('long_name', 'LONG-NAME'))),
 ('ExternalTriggeringPoint', 'EXTERNAL-TRIGGERING-POINT'): (((), (False, (('IDENT', None, False), ('TRIGGER-IREF', None, False)))),
                                                            (('ident', 'IDENT'), ('trigger', 'TRIGGER-IREF'))),
 ('ExternalTriggeringPointIdent', 'IDENT'): ((('UUID',),
                                              (False,
                                               (('SHORT-NAME', ((), None), False),
                                                ('LONG-NAME', None, False),
                                                ('DESC', None, False),
                                                ('CATEGORY', ((), None), False),
                                                ('INTRODUCTION', None, False),
                                                ('ANNOTATIONS', ((), (False, (('ANNOTATION', None, True),))), False),
                                                ('RETURN-VALUE-PROVISION', ((), None), False)))),
                                             (('name', 'SHORT-NAME'),
                                              ('return_value_provision', 'RETURN-VALUE-PROVISION'),
                                              ('desc', 'DESC'),
                                              ('category', 'CATEGORY'),
                                              ('uuid', '@UUID'),
                                              ('introduction', 'INTRODUCTION'),
                                              ('annotations', 'ANNOTATIONS'),
                                              ('long_name', 'LONG-NAME'))),
 ('FunctionPtrSignatureRef', 'FUNCTION-POINTER-SIGNATURE-REF'): ((('DEST',), None), ()),
 ('ImplementationDataType', 'IMPLEMENTATION-DATA-TYPE'): ((('UUID',),
                                                           (False,
                                                            (('SHORT-NAME', ((), None), False),
                                                             ('LONG-NAME', None, False),
                                                             ('DESC', None, False),
                                                             ('CATEGORY', ((), None), False),
                                                             ('INTRODUCTION', None, False),
                                                             ('ANNOTATIONS', ((), (False, (('ANNOTATION', None, True),))), False),
                                                             ('SW-DATA-DEF-PROPS', None, False),
                                                             ('DYNAMIC-ARRAY-SIZE-PROFILE', ((), None), False),
                                                             ('IS-STRUCT-WITH-OPTIONAL-ELEMENT', ((), None), False),
                                                             ('SUB-ELEMENTS',
                                                              ((), (False, (('IMPLEMENTATION-DATA-TYPE-ELEMENT', None, True),))),
                                                              False),
                                                             ('SYMBOL-PROPS', None, False),
                                                             ('TYPE-EMITTER', ((), None), False)))),
                                                          (('name', 'SHORT-NAME'),
                                                           ('dynamic_array_size_profile', 'DYNAMIC-ARRAY-SIZE-PROFILE'),
                                                           ('is_struct_with_optional_element', 'IS-STRUCT-WITH-OPTIONAL-ELEMENT'),
                                                           ('sub_elements', 'SUB-ELEMENTS'),
                                                           ('symbol_props', 'SYMBOL-PROPS'),
                                                           ('type_emitter', 'TYPE-EMITTER'),
                                                           ('sw_data_def_props', 'SW-DATA-DEF-PROPS'),
                                                           ('desc', 'DESC'),
                                                           ('category', 'CATEGORY'),
                                                           ('uuid', '@UUID'),
                                                           ('introduction', 'INTRODUCTION'),
                                                           ('annotations', 'ANNOTATIONS'),
                                                           ('long_name', 'LONG-NAME'))),
 ('ImplementationDataTypeElement', 'IMPLEMENTATION-DATA-TYPE-ELEMENT'): ((('UUID',),
                                                                          (False,
                                                                           (('SHORT-NAME', ((), None), False),
                                                                            ('LONG-NAME', None, False),
                                                                            ('DESC', None, False),
                                                                            ('CATEGORY', ((), None), False),
                                                                            ('INTRODUCTION', None, False),
                                                                            ('ANNOTATIONS', ((), (False, (('ANNOTATION', None, True),))), False),
                                                                            ('ARRAY-IMPL-POLICY', ((), None), False),
                                                                            ('ARRAY-SIZE', ((), None), False),
                                                                            ('ARRAY-SIZE-HANDLING', ((), None), False),
                                                                            ('ARRAY-SIZE-SEMANTICS', ((), None), False),
                                                                            ('IS-OPTIONAL', ((), None), False),
                                                                            ('SUB-ELEMENTS',
                                                                             ((), (False, (('IMPLEMENTATION-DATA-TYPE-ELEMENT', None, True),))),
                                                                             False),
                                                                            ('SW-DATA-DEF-PROPS', None, False)))),
                                                                         (('name', 'SHORT-NAME'),
                                                                          ('sw_data_def_props', 'SW-DATA-DEF-PROPS'),
                                                                          ('array_size', 'ARRAY-SIZE'),
                                                                          ('array_impl_policy', 'ARRAY-IMPL-POLICY'),
                                                                          ('array_size_handling', 'ARRAY-SIZE-HANDLING'),
                                                                          ('array_size_semantics', 'ARRAY-SIZE-SEMANTICS'),
                                                                          ('sub_elements', 'SUB-ELEMENTS'),
                                                                          ('is_optional', 'IS-OPTIONAL'),
                                                                          ('desc', 'DESC'),
                                                                          ('category', 'CATEGORY'),
                                                                          ('uuid', '@UUID'),
                                                                          ('introduction', 'INTRODUCTION'),
                                                                          ('annotations', 'ANNOTATIONS'),
                                                                          ('long_name', 'LONG-NAME'))),
 ('ImplementationDataTypeRef', 'IMPLEMENTATION-DATA-TYPE-REF'): ((('DEST',), None), ()),
 ('ImplementationDataTypeRef', 'VALUE-TYPE-TREF'): ((('DEST',), None), ()),
 ('IndexDataTypeRef', 'INDEX-DATA-TYPE-REF'): ((('DEST',), None), ()),
 ('IndexEntry', 'IE'): (((), None), ()),
 ('InitEvent', 'INIT-EVENT'): ((('UUID',),
                                (False,
                                 (('SHORT-NAME', ((), None), False),
                                  ('LONG-NAME', None, False),
                                  ('DESC', None, False),
                                  ('CATEGORY', ((), None), False),
                                  ('INTRODUCTION', None, False),
                                  ('ANNOTATIONS', ((), (False, (('ANNOTATION', None, True),))), False),
                                  ('DISABLED-MODE-IREFS', ((), (False, (('DISABLED-MODE-IREF', None, True),))), False),
                                  ('START-ON-EVENT-REF', (('DEST',), None), False)))),
                               (('name', 'SHORT-NAME'),
                                ('start_on_event', 'START-ON-EVENT-REF'),
                                ('disabled_modes', 'DISABLED-MODE-IREFS'),
                                ('desc', 'DESC'),
                                ('category', 'CATEGORY'),
                                ('uuid', '@UUID'),
                                ('introduction', 'INTRODUCTION'),
                                ('annotations', 'ANNOTATIONS'),
                                ('long_name', 'LONG-NAME'))),
 ('InternalConstraint', 'INTERNAL-CONSTRS'): (((),
                                               (False,
                                                (('LOWER-LIMIT', (('INTERVAL-TYPE',), None), False),
                                                 ('UPPER-LIMIT', (('INTERVAL-TYPE',), None), False),
                                                 ('SCALE-CONSTRS', ((), (False, (('SCALE-CONSTR', None, True),))), False),
                                                 ('MAX-GRADIENT', ((), None), False),
                                                 ('MAX-DIFF', ((), None), False),
                                                 ('MONOTONY', ((), None), False)))),
                                              (('lower_limit', 'LOWER-LIMIT'),
                                               ('upper_limit', 'UPPER-LIMIT'),
                                               ('scale_constrs', 'SCALE-CONSTRS'),
                                               ('max_gradient', 'MAX-GRADIENT'),
                                               ('max_diff', 'MAX-DIFF'),
                                               ('monotony', 'MONOTONY'))),
 ('InternalTriggerOccurredEvent', 'INTERNAL-TRIGGER-OCCURRED-EVENT'): ((('UUID',),
                                                                        (False,
                                                                         (('SHORT-NAME', ((), None), False),
                                                                          ('LONG-NAME', None, False),
                                                                          ('DESC', None, False),
                                                                          ('CATEGORY', ((), None), False),
                                                                          ('INTRODUCTION', None, False),
                                                                          ('ANNOTATIONS', ((), (False, (('ANNOTATION', None, True),))), False),
                                                                          ('DISABLED-MODE-IREFS',
                                                                           ((), (False, (('DISABLED-MODE-IREF', None, True),))),
                                                                           False),
                                                                          ('START-ON-EVENT-REF', (('DEST',), None), False),
                                                                          ('EVENT-SOURCE-REF', (('DEST',), None), False)))),
                                                                       (('name', 'SHORT-NAME'),
                                                                        ('start_on_event', 'START-ON-EVENT-REF'),
                                                                        ('event_source', 'EVENT-SOURCE-REF'),
                                                                        ('disabled_modes', 'DISABLED-MODE-IREFS'),
                                                                        ('desc', 'DESC'),
                                                                        ('category', 'CATEGORY'),
                                                                        ('uuid', '@UUID'),
                                                                        ('introduction', 'INTRODUCTION'),
                                                                        ('annotations', 'ANNOTATIONS'),
                                                                        ('long_name', 'LONG-NAME'))),
 ('InternalTriggeringPoint', 'INTERNAL-TRIGGERING-POINT'): ((('UUID',),
                                                             (False,
                                                              (('SHORT-NAME', ((), None), False),
                                                               ('LONG-NAME', None, False),
                                                               ('DESC', None, False),
                                                               ('CATEGORY', ((), None), False),
                                                               ('INTRODUCTION', None, False),
                                                               ('ANNOTATIONS', ((), (False, (('ANNOTATION', None, True),))), False),
                                                               ('RETURN-VALUE-PROVISION', ((), None), False),
                                                               ('SW-IMPL-POLICY', ((), None), False)))),
                                                            (('name', 'SHORT-NAME'),
                                                             ('sw_impl_policy', 'SW-IMPL-POLICY'),
                                                             ('return_value_provision', 'RETURN-VALUE-PROVISION'),
                                                             ('desc', 'DESC'),
                                                             ('category', 'CATEGORY'),
                                                             ('uuid', '@UUID'),
                                                             ('introduction', 'INTRODUCTION'),
                                                             ('annotations', 'ANNOTATIONS'),
                                                             ('long_name', 'LONG-NAME'))),
 ('InternalTriggeringPointRef', 'EVENT-SOURCE-REF'): ((('DEST',), None), ()),
 ('InvalidationPolicy', 'INVALIDATION-POLICY'): (((),
                                                  (False, (('DATA-ELEMENT-REF', (('DEST',), None), False), ('HANDLE-INVALID', ((), None), False)))),
                                                 (('data_element_ref', 'DATA-ELEMENT-REF'), ('handle_invalid', 'HANDLE-INVALID'))),
 ('LanguageLongName', 'L-4'): ((('L',),
                                (True, (('E', None, True), ('IE', None, True), ('SUB', None, True), ('SUP', None, True), ('TT', None, True)))),
                               (('language', '@L'),)),
 ('LanguageOverviewParagraph', 'L-2'): ((('L',),
                                         (True,
                                          (('BR', None, True),
                                           ('E', None, True),
                                           ('IE', None, True),
                                           ('SUB', None, True),
                                           ('SUP', None, True),
                                           ('TT', None, True)))),
                                        (('language', '@L'),)),
 ('LanguageParagraph', 'L-1'): ((('L',),
                                 (True,
                                  (('BR', None, True),
                                   ('E', None, True),
                                   ('IE', None, True),
                                   ('SUB', None, True),
                                   ('SUP', None, True),
                                   ('TT', None, True)))),
                                (('language', '@L'),)),
 ('LanguageVerbatim', 'L-5'): ((('L',), (True, (('BR', None, True), ('E', None, True), ('TT', None, True)))), (('language', '@L'),)),
 ('ModeAccessPoint', 'MODE-ACCESS-POINT'): (((),
                                             (False,
                                              (('IDENT', None, False),
                                               ('MODE-GROUP-IREF',
                                                ((),
                                                 (False,
                                                  (('P-MODE-GROUP-IN-ATOMIC-SWC-INSTANCE-REF', None, False),
                                                   ('R-MODE-GROUP-IN-ATOMIC-SWC-INSTANCE-REF', None, False)))),
                                                False)))),
                                            (('ident', 'IDENT'), ('mode_group', 'MODE-GROUP-IREF'))),
 ('ModeAccessPointIdent', 'IDENT'): ((('UUID',),
                                      (False,
                                       (('SHORT-NAME', ((), None), False),
                                        ('LONG-NAME', None, False),
                                        ('DESC', None, False),
                                        ('CATEGORY', ((), None), False),
                                        ('INTRODUCTION', None, False),
                                        ('ANNOTATIONS', ((), (False, (('ANNOTATION', None, True),))), False),
                                        ('RETURN-VALUE-PROVISION', ((), None), False)))),
                                     (('name', 'SHORT-NAME'),
                                      ('return_value_provision', 'RETURN-VALUE-PROVISION'),
                                      ('desc', 'DESC'),
                                      ('category', 'CATEGORY'),
                                      ('uuid', '@UUID'),
                                      ('introduction', 'INTRODUCTION'),
                                      ('annotations', 'ANNOTATIONS'),
                                      ('long_name', 'LONG-NAME'))),
 ('ModeDeclaration', 'MODE-DECLARATION'): ((('UUID',),
                                            (False,
                                             (('SHORT-NAME', ((), None), False),
                                              ('LONG-NAME', None, False),
                                              ('DESC', None, False),
                                              ('CATEGORY', ((), None), False),
                                              ('INTRODUCTION', None, False),
                                              ('ANNOTATIONS', ((), (False, (('ANNOTATION', None, True),))), False),
                                              ('VALUE', ((), None), False)))),
                                           (('name', 'SHORT-NAME'),
                                            ('value', 'VALUE'),
                                            ('desc', 'DESC'),
                                            ('category', 'CATEGORY'),
                                            ('uuid', '@UUID'),
                                            ('introduction', 'INTRODUCTION'),
                                            ('annotations', 'ANNOTATIONS'),
                                            ('long_name', 'LONG-NAME'))),
 ('ModeDeclarationGroup', 'MODE-DECLARATION-GROUP'): ((('UUID',),
                                                       (False,
                                                        (('SHORT-NAME', ((), None), False),
                                                         ('LONG-NAME', None, False),
                                                         ('DESC', None, False),
                                                         ('CATEGORY', ((), None), False),
                                                         ('INTRODUCTION', None, False),
                                                         ('ANNOTATIONS', ((), (False, (('ANNOTATION', None, True),))), False),
                                                         ('INITIAL-MODE-REF', (('DEST',), None), False),
                                                         ('MODE-DECLARATIONS', ((), (False, (('MODE-DECLARATION', None, True),))), False),
                                                         ('MODE-MANAGER-ERROR-BEHAVIOR', None, False),
                                                         ('MODE-TRANSITIONS', ((), (False, (('MODE-TRANSITION', None, True),))), False),
                                                         ('MODE-USER-ERROR-BEHAVIOR', None, False),
                                                         ('ON-TRANSITION-VALUE', ((), None), False)))),
                                                      (('name', 'SHORT-NAME'),
                                                       ('mode_declarations', 'MODE-DECLARATIONS'),
                                                       ('initial_mode_ref', 'INITIAL-MODE-REF'),
                                                       ('mode_manager_error_behavior', 'MODE-MANAGER-ERROR-BEHAVIOR'),
                                                       ('mode_transitions', 'MODE-TRANSITIONS'),
                                                       ('mode_user_error_behavior', 'MODE-USER-ERROR-BEHAVIOR'),
                                                       ('on_transition_value', 'ON-TRANSITION-VALUE'),
                                                       ('desc', 'DESC'),
                                                       ('category', 'CATEGORY'),
                                                       ('uuid', '@UUID'),
                                                       ('introduction', 'INTRODUCTION'),
                                                       ('annotations', 'ANNOTATIONS'),
                                                       ('long_name', 'LONG-NAME'))),
 ('ModeDeclarationGroupPrototype', 'MODE-DECLARATION-GROUP-PROTOTYPE'): ((('UUID',),
                                                                          (False,
                                                                           (('SHORT-NAME', ((), None), False),
                                                                            ('LONG-NAME', None, False),
                                                                            ('DESC', None, False),
                                                                            ('CATEGORY', ((), None), False),
                                                                            ('INTRODUCTION', None, False),
                                                                            ('ANNOTATIONS', ((), (False, (('ANNOTATION', None, True),))), False),
                                                                            ('SW-CALIBRATION-ACCESS', ((), None), False),
                                                                            ('TYPE-TREF', (('DEST',), None), False)))),
                                                                         (('name', 'SHORT-NAME'),
                                                                          ('type_ref', 'TYPE-TREF'),
                                                                          ('calibration_access', 'SW-CALIBRATION-ACCESS'),
                                                                          ('desc', 'DESC'),
                                                                          ('category', 'CATEGORY'),
                                                                          ('uuid', '@UUID'),
                                                                          ('introduction', 'INTRODUCTION'),
                                                                          ('annotations', 'ANNOTATIONS'),
                                                                          ('long_name', 'LONG-NAME'))),
 ('ModeDeclarationGroupPrototype', 'MODE-GROUP'): ((('UUID',),
                                                    (False,
                                                     (('SHORT-NAME', ((), None), False),
                                                      ('LONG-NAME', None, False),
                                                      ('DESC', None, False),
                                                      ('CATEGORY', ((), None), False),
                                                      ('INTRODUCTION', None, False),
                                                      ('ANNOTATIONS', ((), (False, (('ANNOTATION', None, True),))), False),
                                                      ('SW-CALIBRATION-ACCESS', ((), None), False),
                                                      ('TYPE-TREF', (('DEST',), None), False)))),
                                                   (('name', 'SHORT-NAME'),
                                                    ('type_ref', 'TYPE-TREF'),
                                                    ('calibration_access', 'SW-CALIBRATION-ACCESS'),
                                                    ('desc', 'DESC'),
                                                    ('category', 'CATEGORY'),
                                                    ('uuid', '@UUID'),
                                                    ('introduction', 'INTRODUCTION'),
                                                    ('annotations', 'ANNOTATIONS'),
                                                    ('long_name', 'LONG-NAME'))),
 ('ModeDeclarationGroupPrototypeRef', 'CONTEXT-MODE-DECLARATION-GROUP-PROTOTYPE-REF'): ((('DEST',), None), ()),
 ('ModeDeclarationGroupPrototypeRef', 'MODE-GROUP-REF'): ((('DEST',), None), ()),
 ('ModeDeclarationGroupPrototypeRef', 'TARGET-MODE-GROUP-REF'): ((('DEST',), None), ()),
 ('ModeDeclarationGroupRef', 'MODE-GROUP-REF'): ((('DEST',), None), ()),
 ('ModeDeclarationGroupRef', 'TYPE-TREF'): ((('DEST',), None), ()),
 ('ModeDeclarationRef', 'DEFAULT-MODE-REF'): ((('DEST',), None), ()),
 ('ModeDeclarationRef', 'ENTERED-MODE-REF'): ((('DEST',), None), ()),
 ('ModeDeclarationRef', 'EXITED-MODE-REF'): ((('DEST',), None), ()),
 ('ModeDeclarationRef', 'INITIAL-MODE-REF'): ((('DEST',), None), ()),
 ('ModeDeclarationRef', 'TARGET-MODE-DECLARATION-REF'): ((('DEST',), None), ()),
 ('ModeErrorBehavior', 'MODE-MANAGER-ERROR-BEHAVIOR'): (((),
                                                         (False,
                                                          (('DEFAULT-MODE-REF', (('DEST',), None), False),
                                                           ('ERROR-REACTION-POLICY', ((), None), False)))),
                                                        (('default_mode_ref', 'DEFAULT-MODE-REF'),
                                                         ('error_reaction_policy', 'ERROR-REACTION-POLICY'))),
 ('ModeErrorBehavior', 'MODE-USER-ERROR-BEHAVIOR'): (((),
                                                      (False,
                                                       (('DEFAULT-MODE-REF', (('DEST',), None), False),
                                                        ('ERROR-REACTION-POLICY', ((), None), False)))),
                                                     (('default_mode_ref', 'DEFAULT-MODE-REF'), ('error_reaction_policy', 'ERROR-REACTION-POLICY'))),
 ('ModeRequestTypeMap', 'MODE-REQUEST-TYPE-MAP'): (((),
                                                    (False,
                                                     (('IMPLEMENTATION-DATA-TYPE-REF', (('DEST',), None), False),
                                                      ('MODE-GROUP-REF', (('DEST',), None), False)))),
                                                   (('implementation_data_type', 'IMPLEMENTATION-DATA-TYPE-REF'), ('mode_group', 'MODE-GROUP-REF'))),
 ('ModeSwitchInterface', 'MODE-SWITCH-INTERFACE'): ((('UUID',),
                                                     (False,
                                                      (('SHORT-NAME', ((), None), False),
                                                       ('LONG-NAME', None, False),
                                                       ('DESC', None, False),
                                                       ('CATEGORY', ((), None), False),
                                                       ('INTRODUCTION', None, False),
                                                       ('ANNOTATIONS', ((), (False, (('ANNOTATION', None, True),))), False),
                                                       ('IS-SERVICE', ((), None), False),
                                                       ('SERVICE-KIND', ((), None), False),
                                                       ('MODE-GROUP', None, False)))),
                                                    (('name', 'SHORT-NAME'),
                                                     ('mode_group', 'MODE-GROUP'),
                                                     ('is_service', 'IS-SERVICE'),
                                                     ('service_kind', 'SERVICE-KIND'),
                                                     ('desc', 'DESC'),
                                                     ('category', 'CATEGORY'),
                                                     ('uuid', '@UUID'),
                                                     ('introduction', 'INTRODUCTION'),
                                                     ('annotations', 'ANNOTATIONS'),
                                                     ('long_name', 'LONG-NAME'))),
 ('ModeSwitchPoint', 'MODE-SWITCH-POINT'): ((('UUID',),
                                             (False,
                                              (('SHORT-NAME', ((), None), False),
                                               ('LONG-NAME', None, False),
                                               ('DESC', None, False),
                                               ('CATEGORY', ((), None), False),
                                               ('INTRODUCTION', None, False),
                                               ('ANNOTATIONS', ((), (False, (('ANNOTATION', None, True),))), False),
                                               ('RETURN-VALUE-PROVISION', ((), None), False),
                                               ('MODE-GROUP-IREF', None, False)))),
                                            (('name', 'SHORT-NAME'),
                                             ('mode_group', 'MODE-GROUP-IREF'),
                                             ('return_value_provision', 'RETURN-VALUE-PROVISION'),
                                             ('desc', 'DESC'),
                                             ('category', 'CATEGORY'),
                                             ('uuid', '@UUID'),
                                             ('introduction', 'INTRODUCTION'),
                                             ('annotations', 'ANNOTATIONS'),
                                             ('long_name', 'LONG-NAME'))),
 ('ModeSwitchPointRef', 'EVENT-SOURCE-REF'): ((('DEST',), None), ()),
 ('ModeSwitchReceiverComSpec', 'MODE-SWITCH-RECEIVER-COM-SPEC'): (((),
                                                                   (False,
                                                                    (('ENHANCED-MODE-API', ((), None), False),
                                                                     ('MODE-GROUP-REF', (('DEST',), None), False),
                                                                     ('SUPPORTS-ASYNCHRONOUS-MODE-SWITCH', ((), None), False)))),
                                                                  (('mode_group_ref', 'MODE-GROUP-REF'),
                                                                   ('enhanced_mode_api', 'ENHANCED-MODE-API'),
                                                                   ('supports_async', 'SUPPORTS-ASYNCHRONOUS-MODE-SWITCH'))),
 ('ModeSwitchSenderComSpec', 'MODE-SWITCH-SENDER-COM-SPEC'): (((),
                                                               (False,
                                                                (('ENHANCED-MODE-API', ((), None), False),
                                                                 ('MODE-GROUP-REF', (('DEST',), None), False),
                                                                 ('MODE-SWITCHED-ACK', None, False),
                                                                 ('QUEUE-LENGTH', ((), None), False)))),
                                                              (('mode_group_ref', 'MODE-GROUP-REF'),
                                                               ('enhanced_mode_api', 'ENHANCED-MODE-API'),
                                                               ('mode_switched_ack', 'MODE-SWITCHED-ACK'),
                                                               ('queue_length', 'QUEUE-LENGTH'))),
 ('ModeSwitchedAckEvent', 'MODE-SWITCHED-ACK-EVENT'): ((('UUID',),
                                                        (False,
                                                         (('SHORT-NAME', ((), None), False),
                                                          ('LONG-NAME', None, False),
                                                          ('DESC', None, False),
                                                          ('CATEGORY', ((), None), False),
                                                          ('INTRODUCTION', None, False),
                                                          ('ANNOTATIONS', ((), (False, (('ANNOTATION', None, True),))), False),
                                                          ('DISABLED-MODE-IREFS', ((), (False, (('DISABLED-MODE-IREF', None, True),))), False),
                                                          ('START-ON-EVENT-REF', (('DEST',), None), False),
                                                          ('EVENT-SOURCE-REF', (('DEST',), None), False)))),
                                                       (('name', 'SHORT-NAME'),
                                                        ('start_on_event', 'START-ON-EVENT-REF'),
                                                        ('event_source', 'EVENT-SOURCE-REF'),
                                                        ('disabled_modes', 'DISABLED-MODE-IREFS'),
                                                        ('desc', 'DESC'),
                                                        ('category', 'CATEGORY'),
                                                        ('uuid', '@UUID'),
                                                        ('introduction', 'INTRODUCTION'),
                                                        ('annotations', 'ANNOTATIONS'),
                                                        ('long_name', 'LONG-NAME'))),
 ('ModeSwitchedAckRequest', 'MODE-SWITCHED-ACK'): (((), (False, (('TIMEOUT', ((), None), False),))), (('timeout', 'TIMEOUT'),)),
 ('ModeTransition', 'MODE-TRANSITION'): ((('UUID',),
                                          (False,
                                           (('SHORT-NAME', ((), None), False),
                                            ('LONG-NAME', None, False),
                                            ('DESC', None, False),
                                            ('CATEGORY', ((), None), False),
                                            ('INTRODUCTION', None, False),
                                            ('ANNOTATIONS', ((), (False, (('ANNOTATION', None, True),))), False),
                                            ('ENTERED-MODE-REF', (('DEST',), None), False),
                                            ('EXITED-MODE-REF', (('DEST',), None), False)))),
                                         (('name', 'SHORT-NAME'),
                                          ('entered_mode_ref', 'ENTERED-MODE-REF'),
                                          ('exited_mode_ref', 'EXITED-MODE-REF'),
                                          ('desc', 'DESC'),
                                          ('category', 'CATEGORY'),
                                          ('uuid', '@UUID'),
                                          ('introduction', 'INTRODUCTION'),
                                          ('annotations', 'ANNOTATIONS'),
                                          ('long_name', 'LONG-NAME'))),
 ('MultiLanguageOverviewParagraph', 'DESC'): (((), (False, (('L-2', None, True),))), ()),
 ('MultiLanguageParagraph', 'P'): ((('SI', 'VIEW', 'BREAK', 'KEEP-WITH-PREVIOUS', 'HELP-ENTRY'), (False, (('L-1', None, True),))),
                                   (('help_entry', '@HELP-ENTRY'),
                                    ('page_break', '@BREAK'),
                                    ('keep_with_previous', '@KEEP-WITH-PREVIOUS'),
                                    ('semantic_information', '@SI'),
                                    ('view', '@VIEW'))),
 ('MultiLanguageVerbatim', 'VERBATIM'): ((('SI', 'VIEW', 'BREAK', 'KEEP-WITH-PREVIOUS', 'ALLOW-BREAK', 'FLOAT', 'HELP-ENTRY', 'PGWIDE'),
                                          (False, (('L-5', None, True),))),
                                         (('allow_break', '@ALLOW-BREAK'),
                                          ('float', '@FLOAT'),
                                          ('page_wide', '@PGWIDE'),
                                          ('help_entry', '@HELP-ENTRY'),
                                          ('page_break', '@BREAK'),
                                          ('keep_with_previous', '@KEEP-WITH-PREVIOUS'),
                                          ('semantic_information', '@SI'),
                                          ('view', '@VIEW'))),
 ('MultilanguageLongName', 'LABEL'): (((), (False, (('L-4', None, True),))), ()),
 ('MultilanguageLongName', 'LONG-NAME'): (((), (False, (('L-4', None, True),))), ()),
 ('NonqueuedReceiverComSpec', 'NONQUEUED-RECEIVER-COM-SPEC'): (((),
                                                                (False,
                                                                 (('DATA-ELEMENT-REF', None, False),
                                                                  ('HANDLE-OUT-OF-RANGE', ((), None), False),
                                                                  ('HANDLE-OUT-OF-RANGE-STATUS', ((), None), False),
                                                                  ('MAX-DELTA-COUNTER-INIT', ((), None), False),
                                                                  ('MAX-NO-NEW-OR-REPEATED-DATA', ((), None), False),
                                                                  ('NETWORK-REPRESENTATION', None, False),
                                                                  ('RECEPTION-PROPS', None, False),
                                                                  ('REPLACE-WITH', None, False),
                                                                  ('SYNC-COUNTER-INIT', ((), None), False),
                                                                  ('TRANSFORMATION-COM-SPEC-PROPSS',
                                                                   ((), (False, (('END-TO-END-TRANSFORMATION-COM-SPEC-PROPS', None, True),))),
                                                                   False),
                                                                  ('USES-END-TO-END-PROTECTION', ((), None), False),
                                                                  ('ALIVE-TIMEOUT', ((), None), False),
                                                                  ('ENABLE-UPDATE', ((), None), False),
                                                                  ('FILTER', None, False),
                                                                  ('HANDLE-DATA-STATUS', ((), None), False),
                                                                  ('HANDLE-NEVER-RECEIVED', ((), None), False),
                                                                  ('HANDLE-TIMEOUT-TYPE', ((), None), False),
                                                                  ('INIT-VALUE',
                                                                   ((),
                                                                    (False,
                                                                     (('TEXT-VALUE-SPECIFICATION', None, False),
                                                                      ('NUMERICAL-VALUE-SPECIFICATION', None, False),
                                                                      ('NOT-AVAILABLE-VALUE-SPECIFICATION', None, False),
                                                                      ('ARRAY-VALUE-SPECIFICATION', None, False),
                                                                      ('RECORD-VALUE-SPECIFICATION', None, False),
                                                                      ('APPLICATION-VALUE-SPECIFICATION', None, False),
                                                                      ('CONSTANT-REFERENCE', None, False)))),
                                                                   False),
                                                                  ('TIMEOUT-SUBSTITUTION-VALUE',
                                                                   ((),
                                                                    (False,
                                                                     (('TEXT-VALUE-SPECIFICATION', None, False),
                                                                      ('NUMERICAL-VALUE-SPECIFICATION', None, False),
                                                                      ('NOT-AVAILABLE-VALUE-SPECIFICATION', None, False),
                                                                      ('ARRAY-VALUE-SPECIFICATION', None, False),
                                                                      ('RECORD-VALUE-SPECIFICATION', None, False),
                                                                      ('APPLICATION-VALUE-SPECIFICATION', None, False),
                                                                      ('CONSTANT-REFERENCE', None, False)))),
                                                                   False)))),
                                                               (('alive_timeout', 'ALIVE-TIMEOUT'),
                                                                ('enable_update', 'ENABLE-UPDATE'),
                                                                ('data_filter', 'FILTER'),
                                                                ('handle_data_status', 'HANDLE-DATA-STATUS'),
                                                                ('handle_never_received', 'HANDLE-NEVER-RECEIVED'),
                                                                ('handle_timeout_type', 'HANDLE-TIMEOUT-TYPE'),
                                                                ('init_value', 'INIT-VALUE'),
                                                                ('timeout_substitution_value', 'TIMEOUT-SUBSTITUTION-VALUE'),
                                                                ('data_element_ref', 'DATA-ELEMENT-REF'),
                                                                ('handle_out_of_range', 'HANDLE-OUT-OF-RANGE'),
                                                                ('handle_out_of_range_status', 'HANDLE-OUT-OF-RANGE-STATUS'),
                                                                ('max_delta_counter_init', 'MAX-DELTA-COUNTER-INIT'),
                                                                ('max_no_new_repeated_data', 'MAX-NO-NEW-OR-REPEATED-DATA'),
                                                                ('network_representation', 'NETWORK-REPRESENTATION'),
                                                                ('reception_props', 'RECEPTION-PROPS'),
                                                                ('replace_with', 'REPLACE-WITH'),
                                                                ('sync_counter_init', 'SYNC-COUNTER-INIT'),
                                                                ('transformation_com_spec_props', 'TRANSFORMATION-COM-SPEC-PROPSS'),
                                                                ('uses_end_to_end_protection', 'USES-END-TO-END-PROTECTION'))),
 ('NonqueuedSenderComSpec', 'NONQUEUED-SENDER-COM-SPEC'): (((),
                                                            (False,
                                                             (('DATA-ELEMENT-REF', None, False),
                                                              ('HANDLE-OUT-OF-RANGE', ((), None), False),
                                                              ('NETWORK-REPRESENTATION', None, False),
                                                              ('TRANSMISSION-ACKNOWLEDGE', None, False),
                                                              ('TRANSMISSION-PROPS', None, False),
                                                              ('USES-END-TO-END-PROTECTION', ((), None), False),
                                                              ('DATA-FILTER', None, False),
                                                              ('INIT-VALUE',
                                                               ((),
                                                                (False,
                                                                 (('TEXT-VALUE-SPECIFICATION', None, False),
                                                                  ('NUMERICAL-VALUE-SPECIFICATION', None, False),
                                                                  ('NOT-AVAILABLE-VALUE-SPECIFICATION', None, False),
                                                                  ('ARRAY-VALUE-SPECIFICATION', None, False),
                                                                  ('RECORD-VALUE-SPECIFICATION', None, False),
                                                                  ('APPLICATION-VALUE-SPECIFICATION', None, False),
                                                                  ('CONSTANT-REFERENCE', None, False)))),
                                                               False)))),
                                                           (('init_value', 'INIT-VALUE'),
                                                            ('data_filter', 'DATA-FILTER'),
                                                            ('data_element_ref', 'DATA-ELEMENT-REF'),
                                                            ('handle_out_of_range', 'HANDLE-OUT-OF-RANGE'),
                                                            ('network_representation', 'NETWORK-REPRESENTATION'),
                                                            ('transmission_acknowledge', 'TRANSMISSION-ACKNOWLEDGE'),
                                                            ('tranmsission_props', 'TRANSMISSION-PROPS'),
                                                            ('uses_end_to_end_protection', 'USES-END-TO-END-PROTECTION'))),
 ('NotAvailableValueSpecification', 'NOT-AVAILABLE-VALUE-SPECIFICATION'): (((),
                                                                            (False,
                                                                             (('SHORT-LABEL', ((), None), False),
                                                                              ('DEFAULT-PATTERN', ((), None), False)))),
                                                                           (('label', 'SHORT-LABEL'), ('default_pattern', 'DEFAULT-PATTERN'))),
 ('NumericalValueSpecification', 'NUMERICAL-VALUE-SPECIFICATION'): (((), (False, (('SHORT-LABEL', ((), None), False), ('VALUE', ((), None), False)))),
                                                                    (('label', 'SHORT-LABEL'), ('value', 'VALUE'))),
 ('NvDataInterface', 'NV-DATA-INTERFACE'): ((('UUID',),
                                             (False,
                                              (('SHORT-NAME', ((), None), False),
                                               ('LONG-NAME', None, False),
                                               ('DESC', None, False),
                                               ('CATEGORY', ((), None), False),
                                               ('INTRODUCTION', None, False),
                                               ('ANNOTATIONS', ((), (False, (('ANNOTATION', None, True),))), False),
                                               ('IS-SERVICE', ((), None), False),
                                               ('SERVICE-KIND', ((), None), False),
                                               ('NV-DATAS', ((), (False, (('VARIABLE-DATA-PROTOTYPE', None, True),))), False)))),
                                            (('name', 'SHORT-NAME'),
                                             ('data_elements', 'NV-DATAS'),
                                             ('is_service', 'IS-SERVICE'),
                                             ('service_kind', 'SERVICE-KIND'),
                                             ('desc', 'DESC'),
                                             ('category', 'CATEGORY'),
                                             ('uuid', '@UUID'),
                                             ('introduction', 'INTRODUCTION'),
                                             ('annotations', 'ANNOTATIONS'),
                                             ('long_name', 'LONG-NAME'))),
 ('NvProvideComSpec', 'NV-PROVIDE-COM-SPEC'): (((),
                                                (False,
                                                 (('RAM-BLOCK-INIT-VALUE',
                                                   ((),
                                                    (False,
                                                     (('TEXT-VALUE-SPECIFICATION', None, False),
                                                      ('NUMERICAL-VALUE-SPECIFICATION', None, False),
                                                      ('NOT-AVAILABLE-VALUE-SPECIFICATION', None, False),
                                                      ('ARRAY-VALUE-SPECIFICATION', None, False),
                                                      ('RECORD-VALUE-SPECIFICATION', None, False),
                                                      ('APPLICATION-VALUE-SPECIFICATION', None, False),
                                                      ('CONSTANT-REFERENCE', None, False)))),
                                                   False),
                                                  ('ROM-BLOCK-INIT-VALUE',
                                                   ((),
                                                    (False,
                                                     (('TEXT-VALUE-SPECIFICATION', None, False),
                                                      ('NUMERICAL-VALUE-SPECIFICATION', None, False),
                                                      ('NOT-AVAILABLE-VALUE-SPECIFICATION', None, False),
                                                      ('ARRAY-VALUE-SPECIFICATION', None, False),
                                                      ('RECORD-VALUE-SPECIFICATION', None, False),
                                                      ('APPLICATION-VALUE-SPECIFICATION', None, False),
                                                      ('CONSTANT-REFERENCE', None, False)))),
                                                   False),
                                                  ('VARIABLE-REF', (('DEST',), None), False)))),
                                               (('variable_ref', 'VARIABLE-REF'),
                                                ('ram_block_init_value', 'RAM-BLOCK-INIT-VALUE'),
                                                ('rom_block_init_value', 'ROM-BLOCK-INIT-VALUE'))),
 ('NvRequireComSpec', 'NV-REQUIRE-COM-SPEC'): (((),
                                                (False,
                                                 (('INIT-VALUE',
                                                   ((),
                                                    (False,
                                                     (('TEXT-VALUE-SPECIFICATION', None, False),
                                                      ('NUMERICAL-VALUE-SPECIFICATION', None, False),
                                                      ('NOT-AVAILABLE-VALUE-SPECIFICATION', None, False),
                                                      ('ARRAY-VALUE-SPECIFICATION', None, False),
                                                      ('RECORD-VALUE-SPECIFICATION', None, False),
                                                      ('APPLICATION-VALUE-SPECIFICATION', None, False),
                                                      ('CONSTANT-REFERENCE', None, False)))),
                                                   False),
                                                  ('VARIABLE-REF', (('DEST',), None), False)))),
                                               (('variable_ref', 'VARIABLE-REF'), ('init_value', 'INIT-VALUE'))),
 ('OperationInvokedEvent', 'OPERATION-INVOKED-EVENT'): ((('UUID',),
                                                         (False,
                                                          (('SHORT-NAME', ((), None), False),
                                                           ('LONG-NAME', None, False),
                                                           ('DESC', None, False),
                                                           ('CATEGORY', ((), None), False),
                                                           ('INTRODUCTION', None, False),
                                                           ('ANNOTATIONS', ((), (False, (('ANNOTATION', None, True),))), False),
                                                           ('DISABLED-MODE-IREFS', ((), (False, (('DISABLED-MODE-IREF', None, True),))), False),
                                                           ('START-ON-EVENT-REF', (('DEST',), None), False),
                                                           ('OPERATION-IREF', None, False)))),
                                                        (('name', 'SHORT-NAME'),
                                                         ('start_on_event', 'START-ON-EVENT-REF'),
                                                         ('operation', 'OPERATION-IREF'),
                                                         ('disabled_modes', 'DISABLED-MODE-IREFS'),
                                                         ('desc', 'DESC'),
                                                         ('category', 'CATEGORY'),
                                                         ('uuid', '@UUID'),
                                                         ('introduction', 'INTRODUCTION'),
                                                         ('annotations', 'ANNOTATIONS'),
                                                         ('long_name', 'LONG-NAME'))),
 ('PModeGroupInAtomicSwcInstanceRef', 'MODE-GROUP-IREF'): (((),
                                                            (False,
                                                             (('CONTEXT-P-PORT-REF', (('DEST',), None), False),
                                                              ('TARGET-MODE-GROUP-REF', (('DEST',), None), False)))),
                                                           (('context_port', 'CONTEXT-P-PORT-REF'), ('target_mode_group', 'TARGET-MODE-GROUP-REF'))),
 ('PModeGroupInAtomicSwcInstanceRef', 'P-MODE-GROUP-IN-ATOMIC-SWC-INSTANCE-REF'): (((),
                                                                                    (False,
                                                                                     (('CONTEXT-P-PORT-REF', (('DEST',), None), False),
                                                                                      ('TARGET-MODE-GROUP-REF', (('DEST',), None), False)))),
                                                                                   (('context_port', 'CONTEXT-P-PORT-REF'),
                                                                                    ('target_mode_group', 'TARGET-MODE-GROUP-REF'))),
 ('POperationInAtomicSwcInstanceRef', 'OPERATION-IREF'): (((),
                                                           (False,
                                                            (('CONTEXT-P-PORT-REF', (('DEST',), None), False),
                                                             ('TARGET-PROVIDED-OPERATION-REF', (('DEST',), None), False)))),
                                                          (('context_port', 'CONTEXT-P-PORT-REF'),
                                                           ('target_provided_operation', 'TARGET-PROVIDED-OPERATION-REF'))),
 ('PRPortPrototype', 'PR-PORT-PROTOTYPE'): ((('UUID',),
                                             (False,
                                              (('SHORT-NAME', ((), None), False),
                                               ('LONG-NAME', None, False),
                                               ('DESC', None, False),
                                               ('CATEGORY', ((), None), False),
                                               ('INTRODUCTION', None, False),
                                               ('ANNOTATIONS', ((), (False, (('ANNOTATION', None, True),))), False),
                                               ('PROVIDED-COM-SPECS',
                                                ((),
                                                 (True,
                                                  (('MODE-SWITCH-SENDER-COM-SPEC', None, True),
                                                   ('NONQUEUED-SENDER-COM-SPEC', None, True),
                                                   ('NV-PROVIDE-COM-SPEC', None, True),
                                                   ('PARAMETER-PROVIDE-COM-SPEC', None, True),
                                                   ('QUEUED-SENDER-COM-SPEC', None, True),
                                                   ('SERVER-COM-SPEC', None, True)))),
                                                False),
                                               ('REQUIRED-COM-SPECS',
                                                ((),
                                                 (True,
                                                  (('CLIENT-COM-SPEC', None, True),
                                                   ('MODE-SWITCH-RECEIVER-COM-SPEC', None, True),
                                                   ('NONQUEUED-RECEIVER-COM-SPEC', None, True),
                                                   ('NV-REQUIRE-COM-SPEC', None, True),
                                                   ('PARAMETER-REQUIRE-COM-SPEC', None, True),
                                                   ('QUEUED-RECEIVER-COM-SPEC', None, True)))),
                                                False),
                                               ('PROVIDED-REQUIRED-INTERFACE-TREF', None, False)))),
                                            (('name', 'SHORT-NAME'),
                                             ('port_interface_ref', 'PROVIDED-REQUIRED-INTERFACE-TREF'),
                                             ('provided_com_spec', 'PROVIDED-COM-SPECS'),
                                             ('required_com_spec', 'REQUIRED-COM-SPECS'),
                                             ('desc', 'DESC'),
                                             ('category', 'CATEGORY'),
                                             ('uuid', '@UUID'),
                                             ('introduction', 'INTRODUCTION'),
                                             ('annotations', 'ANNOTATIONS'),
                                             ('long_name', 'LONG-NAME'))),
 ('PTriggerInAtomicSwcTypeInstanceRef', 'TRIGGER-IREF'): (((),
                                                           (False,
                                                            (('CONTEXT-P-PORT-REF', (('DEST',), None), False),
                                                             ('TARGET-TRIGGER-REF', (('DEST',), None), False)))),
                                                          (('context_port', 'CONTEXT-P-PORT-REF'), ('target_trigger', 'TARGET-TRIGGER-REF'))),
 ('Package', 'AR-PACKAGE'): ((('UUID',),
                              (False,
                               (('SHORT-NAME', ((), None), False),
                                ('LONG-NAME', None, False),
                                ('DESC', None, False),
                                ('CATEGORY', ((), None), False),
                                ('INTRODUCTION', None, False),
                                ('ANNOTATIONS', ((), (False, (('ANNOTATION', None, True),))), False),
                                ('ELEMENTS', ((), (True, (('COMPU-METHOD', None, True),
                                                            ('DATA-CONSTR', None, True),
                                                            ('UNIT', None, True),
                                                            ('SW-BASE-TYPE', None, True),
                                                            ('IMPLEMENTATION-DATA-TYPE', None, True),
                                                            ('APPLICATION-PRIMITIVE-DATA-TYPE', None, True),
                                                            ('APPLICATION-ARRAY-DATA-TYPE', None, True),
                                                            ('APPLICATION-RECORD-DATA-TYPE', None, True),
                                                            ('DATA-TYPE-MAPPING-SET', None, True),
                                                            ('SW-ADDR-METHOD', None, True),
                                                            ('CONSTANT-SPECIFICATION', None, True),
                                                            ('MODE-DECLARATION-GROUP', None, True),
                                                            ('SENDER-RECEIVER-INTERFACE', None, True),
                                                            ('NV-DATA-INTERFACE', None, True),
                                                            ('PARAMETER-INTERFACE', None, True),
                                                            ('CLIENT-SERVER-INTERFACE', None, True),
                                                            ('MODE-SWITCH-INTERFACE', None, True),
                                                            ('E-2-E-PROFILE-COMPATIBILITY-PROPS', None, True),
                                                            ('APPLICATION-SW-COMPONENT-TYPE', None, True),
                                                            ('COMPOSITION-SW-COMPONENT-TYPE', None, True),
                                                            ('SWC-IMPLEMENTATION', None, True)))), False),
                                ('AR-PACKAGES', ((), (False, (('AR-PACKAGE', None, True),))), False)))),
                             (('name', 'SHORT-NAME'),
                              ('desc', 'DESC'),
                              ('category', 'CATEGORY'),
                              ('elements', 'ELEMENTS'),
                              ('packages', 'AR-PACKAGES'),
                              ('uuid', '@UUID'),
                              ('introduction', 'INTRODUCTION'),
                              ('annotations', 'ANNOTATIONS'),
                              ('long_name', 'LONG-NAME'))),
 ('ParameterAccess', 'PARAMETER-ACCESS'): ((('UUID',),
                                            (False,
                                             (('SHORT-NAME', ((), None), False),
                                              ('LONG-NAME', None, False),
                                              ('DESC', None, False),
                                              ('CATEGORY', ((), None), False),
                                              ('INTRODUCTION', None, False),
                                              ('ANNOTATIONS', ((), (False, (('ANNOTATION', None, True),))), False),
                                              ('RETURN-VALUE-PROVISION', ((), None), False),
                                              ('ACCESSED-PARAMETER', None, False),
                                              ('SW-DATA-DEF-PROPS', None, False)))),
                                           (('name', 'SHORT-NAME'),
                                            ('accessed_parameter', 'ACCESSED-PARAMETER'),
                                            ('sw_data_def_props', 'SW-DATA-DEF-PROPS'),
                                            ('return_value_provision', 'RETURN-VALUE-PROVISION'),
                                            ('desc', 'DESC'),
                                            ('category', 'CATEGORY'),
                                            ('uuid', '@UUID'),
                                            ('introduction', 'INTRODUCTION'),
                                            ('annotations', 'ANNOTATIONS'),
                                            ('long_name', 'LONG-NAME'))),
 ('ParameterDataPrototype', 'PARAMETER-DATA-PROTOTYPE'): ((('UUID',),
                                                           (False,
                                                            (('SHORT-NAME', ((), None), False),
                                                             ('LONG-NAME', None, False),
                                                             ('DESC', None, False),
                                                             ('CATEGORY', ((), None), False),
                                                             ('INTRODUCTION', None, False),
                                                             ('ANNOTATIONS', ((), (False, (('ANNOTATION', None, True),))), False),
                                                             ('SW-DATA-DEF-PROPS', None, False),
                                                             ('TYPE-TREF', (('DEST',), None), False),
                                                             ('INIT-VALUE',
                                                              ((),
                                                               (False,
                                                                (('TEXT-VALUE-SPECIFICATION', None, False),
                                                                 ('NUMERICAL-VALUE-SPECIFICATION', None, False),
                                                                 ('NOT-AVAILABLE-VALUE-SPECIFICATION', None, False),
                                                                 ('ARRAY-VALUE-SPECIFICATION', None, False),
                                                                 ('RECORD-VALUE-SPECIFICATION', None, False),
                                                                 ('APPLICATION-VALUE-SPECIFICATION', None, False),
                                                                 ('CONSTANT-REFERENCE', None, False)))),
                                                              False)))),
                                                          (('name', 'SHORT-NAME'),
                                                           ('init_value', 'INIT-VALUE'),
                                                           ('type_ref', 'TYPE-TREF'),
                                                           ('sw_data_def_props', 'SW-DATA-DEF-PROPS'),
                                                           ('desc', 'DESC'),
                                                           ('category', 'CATEGORY'),
                                                           ('uuid', '@UUID'),
                                                           ('introduction', 'INTRODUCTION'),
                                                           ('annotations', 'ANNOTATIONS'),
                                                           ('long_name', 'LONG-NAME'))),
 ('ParameterDataPrototypeRef', 'PARAMETER-REF'): ((('DEST',), None), ()),
 ('ParameterInAtomicSwcTypeInstanceRef', 'AUTOSAR-PARAMETER-IREF'): (((),
                                                                      (False,
                                                                       (('PORT-PROTOTYPE-REF', (('DEST',), None), False),
                                                                        ('ROOT-PARAMETER-DATA-PROTOTYPE-REF', (('DEST',), None), False),
                                                                        ('CONTEXT-DATA-PROTOTYPE-REF', (('DEST',), None), False),
                                                                        ('TARGET-DATA-PROTOTYPE-REF', (('DEST',), None), False)))),
                                                                     (('port_prototype', 'PORT-PROTOTYPE-REF'),
                                                                      ('root_parameter_data_prototype', 'ROOT-PARAMETER-DATA-PROTOTYPE-REF'),
                                                                      ('context_data_prototype', 'CONTEXT-DATA-PROTOTYPE-REF'),
                                                                      ('target_data_prototype', 'TARGET-DATA-PROTOTYPE-REF'))),
 ('ParameterInterface', 'PARAMETER-INTERFACE'): ((('UUID',),
                                                  (False,
                                                   (('SHORT-NAME', ((), None), False),
                                                    ('LONG-NAME', None, False),
                                                    ('DESC', None, False),
                                                    ('CATEGORY', ((), None), False),
                                                    ('INTRODUCTION', None, False),
                                                    ('ANNOTATIONS', ((), (False, (('ANNOTATION', None, True),))), False),
                                                    ('IS-SERVICE', ((), None), False),
                                                    ('SERVICE-KIND', ((), None), False),
                                                    ('PARAMETERS', ((), (False, (('PARAMETER-DATA-PROTOTYPE', None, True),))), False)))),
                                                 (('name', 'SHORT-NAME'),
                                                  ('parameters', 'PARAMETERS'),
                                                  ('is_service', 'IS-SERVICE'),
                                                  ('service_kind', 'SERVICE-KIND'),
                                                  ('desc', 'DESC'),
                                                  ('category', 'CATEGORY'),
                                                  ('uuid', '@UUID'),
                                                  ('introduction', 'INTRODUCTION'),
                                                  ('annotations', 'ANNOTATIONS'),
                                                  ('long_name', 'LONG-NAME'))),
 ('ParameterProvideComSpec', 'PARAMETER-PROVIDE-COM-SPEC'): (((),
                                                              (False,
                                                               (('INIT-VALUE',
                                                                 ((),
                                                                  (False,
                                                                   (('TEXT-VALUE-SPECIFICATION', None, False),
                                                                    ('NUMERICAL-VALUE-SPECIFICATION', None, False),
                                                                    ('NOT-AVAILABLE-VALUE-SPECIFICATION', None, False),
                                                                    ('ARRAY-VALUE-SPECIFICATION', None, False),
                                                                    ('RECORD-VALUE-SPECIFICATION', None, False),
                                                                    ('APPLICATION-VALUE-SPECIFICATION', None, False),
                                                                    ('CONSTANT-REFERENCE', None, False)))),
                                                                 False),
                                                                ('PARAMETER-REF', (('DEST',), None), False)))),
                                                             (('parameter_ref', 'PARAMETER-REF'), ('init_value', 'INIT-VALUE'))),
 ('ParameterRequireComSpec', 'PARAMETER-REQUIRE-COM-SPEC'): (((),
                                                              (False,
                                                               (('INIT-VALUE',
                                                                 ((),
                                                                  (False,
                                                                   (('TEXT-VALUE-SPECIFICATION', None, False),
                                                                    ('NUMERICAL-VALUE-SPECIFICATION', None, False),
                                                                    ('NOT-AVAILABLE-VALUE-SPECIFICATION', None, False),
                                                                    ('ARRAY-VALUE-SPECIFICATION', None, False),
                                                                    ('RECORD-VALUE-SPECIFICATION', None, False),
                                                                    ('APPLICATION-VALUE-SPECIFICATION', None, False),
                                                                    ('CONSTANT-REFERENCE', None, False)))),
                                                                 False),
                                                                ('PARAMETER-REF', (('DEST',), None), False)))),
                                                             (('parameter_ref', 'PARAMETER-REF'), ('init_value', 'INIT-VALUE'))),
 ('PassThroughSwConnector', 'PASS-THROUGH-SW-CONNECTOR'): ((('UUID',),
                                                            (False,
                                                             (('SHORT-NAME', ((), None), False),
                                                              ('LONG-NAME', None, False),
                                                              ('DESC', None, False),
                                                              ('CATEGORY', ((), None), False),
                                                              ('INTRODUCTION', None, False),
                                                              ('ANNOTATIONS', ((), (False, (('ANNOTATION', None, True),))), False),
                                                              ('PROVIDED-OUTER-PORT-REF', None, False),
                                                              ('REQUIRED-OUTER-PORT-REF', None, False)))),
                                                           (('name', 'SHORT-NAME'),
                                                            ('provide_port', 'PROVIDED-OUTER-PORT-REF'),
                                                            ('require_port', 'REQUIRED-OUTER-PORT-REF'),
                                                            ('desc', 'DESC'),
                                                            ('category', 'CATEGORY'),
                                                            ('uuid', '@UUID'),
                                                            ('introduction', 'INTRODUCTION'),
                                                            ('annotations', 'ANNOTATIONS'),
                                                            ('long_name', 'LONG-NAME'))),
 ('PhysicalConstraint', 'PHYS-CONSTRS'): (((),
                                           (False,
                                            (('LOWER-LIMIT', (('INTERVAL-TYPE',), None), False),
                                             ('UPPER-LIMIT', (('INTERVAL-TYPE',), None), False),
                                             ('SCALE-CONSTRS', ((), (False, (('SCALE-CONSTR', None, True),))), False),
                                             ('MAX-GRADIENT', ((), None), False),
                                             ('MAX-DIFF', ((), None), False),
                                             ('MONOTONY', ((), None), False),
                                             ('UNIT-REF', (('DEST',), None), False)))),
                                          (('lower_limit', 'LOWER-LIMIT'),
                                           ('upper_limit', 'UPPER-LIMIT'),
                                           ('scale_constrs', 'SCALE-CONSTRS'),
                                           ('max_gradient', 'MAX-GRADIENT'),
                                           ('max_diff', 'MAX-DIFF'),
                                           ('monotony', 'MONOTONY'),
                                           ('unit_ref', 'UNIT-REF'))),
 ('PhysicalDimensionRef', 'PHYSICAL-DIMENSION-REF'): ((('DEST',), None), ()),
 ('PortApiOption', 'PORT-API-OPTION'): (((),
                                         (False,
                                          (('ENABLE-TAKE-ADDRESS', ((), None), False),
                                           ('ERROR-HANDLING', ((), None), False),
                                           ('INDIRECT-API', ((), None), False),
                                           ('PORT-ARG-VALUES', ((), (False, (('PORT-DEFINED-ARGUMENT-VALUE', None, True),))), False),
                                           ('PORT-REF', (('DEST',), None), False),
                                           ('SUPPORTED-FEATURES', ((), (False, (('COMMUNICATION-BUFFER-LOCKING', None, True),))), False),
                                           ('TRANSFORMER-STATUS-FORWARDING', ((), None), False)))),
                                        (('port', 'PORT-REF'),
                                         ('enable_take_address', 'ENABLE-TAKE-ADDRESS'),
                                         ('indirect_api', 'INDIRECT-API'),
                                         ('error_handling', 'ERROR-HANDLING'),
                                         ('port_arg_values', 'PORT-ARG-VALUES'),
                                         ('supported_features', 'SUPPORTED-FEATURES'),
                                         ('transformer_status_forwarding', 'TRANSFORMER-STATUS-FORWARDING'))),
 ('PortDefinedArgumentValue', 'PORT-DEFINED-ARGUMENT-VALUE'): (((),
                                                                (False,
                                                                 (('VALUE',
                                                                   ((),
                                                                    (False,
                                                                     (('TEXT-VALUE-SPECIFICATION', None, False),
                                                                      ('NUMERICAL-VALUE-SPECIFICATION', None, False),
                                                                      ('NOT-AVAILABLE-VALUE-SPECIFICATION', None, False),
                                                                      ('ARRAY-VALUE-SPECIFICATION', None, False),
                                                                      ('RECORD-VALUE-SPECIFICATION', None, False),
                                                                      ('APPLICATION-VALUE-SPECIFICATION', None, False),
                                                                      ('CONSTANT-REFERENCE', None, False)))),
                                                                   False),
                                                                  ('VALUE-TYPE-TREF', (('DEST',), None), False)))),
                                                               (('value', 'VALUE'), ('value_type', 'VALUE-TYPE-TREF'))),
 ('PortInterfaceRef', 'PROVIDED-INTERFACE-TREF'): ((('DEST',), None), ()),
 ('PortInterfaceRef', 'PROVIDED-REQUIRED-INTERFACE-TREF'): ((('DEST',), None), ()),
 ('PortInterfaceRef', 'REQUIRED-INTERFACE-TREF'): ((('DEST',), None), ()),
 ('PortPrototypeRef', 'OUTER-PORT-REF'): ((('DEST',), None), ()),
 ('PortPrototypeRef', 'PORT-PROTOTYPE-REF'): ((('DEST',), None), ()),
 ('PortPrototypeRef', 'PORT-REF'): ((('DEST',), None), ()),
 ('PortPrototypeRef', 'PROVIDED-OUTER-PORT-REF'): ((('DEST',), None), ()),
 ('PortPrototypeRef', 'REQUIRED-OUTER-PORT-REF'): ((('DEST',), None), ()),
 ('ProvidePortPrototype', 'P-PORT-PROTOTYPE'): ((('UUID',),
                                                 (False,
                                                  (('SHORT-NAME', ((), None), False),
                                                   ('LONG-NAME', None, False),
                                                   ('DESC', None, False),
                                                   ('CATEGORY', ((), None), False),
                                                   ('INTRODUCTION', None, False),
                                                   ('ANNOTATIONS', ((), (False, (('ANNOTATION', None, True),))), False),
                                                   ('PROVIDED-COM-SPECS',
                                                    ((),
                                                     (True,
                                                      (('MODE-SWITCH-SENDER-COM-SPEC', None, True),
                                                       ('NONQUEUED-SENDER-COM-SPEC', None, True),
                                                       ('NV-PROVIDE-COM-SPEC', None, True),
                                                       ('PARAMETER-PROVIDE-COM-SPEC', None, True),
                                                       ('QUEUED-SENDER-COM-SPEC', None, True),
                                                       ('SERVER-COM-SPEC', None, True)))),
                                                    False),
                                                   ('PROVIDED-INTERFACE-TREF', None, False)))),
                                                (('name', 'SHORT-NAME'),
                                                 ('port_interface_ref', 'PROVIDED-INTERFACE-TREF'),
                                                 ('com_spec', 'PROVIDED-COM-SPECS'),
                                                 ('desc', 'DESC'),
                                                 ('category', 'CATEGORY'),
                                                 ('uuid', '@UUID'),
                                                 ('introduction', 'INTRODUCTION'),
                                                 ('annotations', 'ANNOTATIONS'),
                                                 ('long_name', 'LONG-NAME'))),
 ('QueuedReceiverComSpec', 'QUEUED-RECEIVER-COM-SPEC'): (((),
                                                          (False,
                                                           (('DATA-ELEMENT-REF', None, False),
                                                            ('HANDLE-OUT-OF-RANGE', ((), None), False),
                                                            ('HANDLE-OUT-OF-RANGE-STATUS', ((), None), False),
                                                            ('MAX-DELTA-COUNTER-INIT', ((), None), False),
                                                            ('MAX-NO-NEW-OR-REPEATED-DATA', ((), None), False),
                                                            ('NETWORK-REPRESENTATION', None, False),
                                                            ('RECEPTION-PROPS', None, False),
                                                            ('REPLACE-WITH', None, False),
                                                            ('SYNC-COUNTER-INIT', ((), None), False),
                                                            ('TRANSFORMATION-COM-SPEC-PROPSS',
                                                             ((), (False, (('END-TO-END-TRANSFORMATION-COM-SPEC-PROPS', None, True),))),
                                                             False),
                                                            ('USES-END-TO-END-PROTECTION', ((), None), False),
                                                            ('QUEUE-LENGTH', ((), None), False)))),
                                                         (('queue_length', 'QUEUE-LENGTH'),
                                                          ('data_element_ref', 'DATA-ELEMENT-REF'),
                                                          ('handle_out_of_range', 'HANDLE-OUT-OF-RANGE'),
                                                          ('handle_out_of_range_status', 'HANDLE-OUT-OF-RANGE-STATUS'),
                                                          ('max_delta_counter_init', 'MAX-DELTA-COUNTER-INIT'),
                                                          ('max_no_new_repeated_data', 'MAX-NO-NEW-OR-REPEATED-DATA'),
                                                          ('network_representation', 'NETWORK-REPRESENTATION'),
                                                          ('reception_props', 'RECEPTION-PROPS'),
                                                          ('replace_with', 'REPLACE-WITH'),
                                                          ('sync_counter_init', 'SYNC-COUNTER-INIT'),
                                                          ('transformation_com_spec_props', 'TRANSFORMATION-COM-SPEC-PROPSS'),
                                                          ('uses_end_to_end_protection', 'USES-END-TO-END-PROTECTION'))),
 ('QueuedSenderComSpec', 'QUEUED-SENDER-COM-SPEC'): (((),
                                                      (False,
                                                       (('DATA-ELEMENT-REF', None, False),
                                                        ('HANDLE-OUT-OF-RANGE', ((), None), False),
                                                        ('NETWORK-REPRESENTATION', None, False),
                                                        ('TRANSMISSION-ACKNOWLEDGE', None, False),
                                                        ('TRANSMISSION-PROPS', None, False),
                                                        ('USES-END-TO-END-PROTECTION', ((), None), False)))),
                                                     (('data_element_ref', 'DATA-ELEMENT-REF'),
                                                      ('handle_out_of_range', 'HANDLE-OUT-OF-RANGE'),
                                                      ('network_representation', 'NETWORK-REPRESENTATION'),
                                                      ('transmission_acknowledge', 'TRANSMISSION-ACKNOWLEDGE'),
                                                      ('tranmsission_props', 'TRANSMISSION-PROPS'),
                                                      ('uses_end_to_end_protection', 'USES-END-TO-END-PROTECTION'))),
 ('RModeGroupInAtomicSwcInstanceRef', 'R-MODE-GROUP-IN-ATOMIC-SWC-INSTANCE-REF'): (((),
                                                                                    (False,
                                                                                     (('CONTEXT-R-PORT-REF', (('DEST',), None), False),
                                                                                      ('TARGET-MODE-GROUP-REF', (('DEST',), None), False)))),
                                                                                   (('context_port', 'CONTEXT-R-PORT-REF'),
                                                                                    ('target_mode_group', 'TARGET-MODE-GROUP-REF'))),
 ('RModeInAtomicSwcInstanceRef', 'DISABLED-MODE-IREF'): (((),
                                                          (False,
                                                           (('CONTEXT-PORT-REF', (('DEST',), None), False),
                                                            ('CONTEXT-MODE-DECLARATION-GROUP-PROTOTYPE-REF', (('DEST',), None), False),
                                                            ('TARGET-MODE-DECLARATION-REF', (('DEST',), None), False)))),
                                                         (('context_port', 'CONTEXT-PORT-REF'),
                                                          ('context_mode_declaration_group_prototype',
                                                           'CONTEXT-MODE-DECLARATION-GROUP-PROTOTYPE-REF'),
                                                          ('target_mode_declaration', 'TARGET-MODE-DECLARATION-REF'))),
 ('RModeInAtomicSwcInstanceRef', 'MODE-IREF'): (((),
                                                 (False,
                                                  (('CONTEXT-PORT-REF', (('DEST',), None), False),
                                                   ('CONTEXT-MODE-DECLARATION-GROUP-PROTOTYPE-REF', (('DEST',), None), False),
                                                   ('TARGET-MODE-DECLARATION-REF', (('DEST',), None), False)))),
                                                (('context_port', 'CONTEXT-PORT-REF'),
                                                 ('context_mode_declaration_group_prototype', 'CONTEXT-MODE-DECLARATION-GROUP-PROTOTYPE-REF'),
                                                 ('target_mode_declaration', 'TARGET-MODE-DECLARATION-REF'))),
 ('ROperationInAtomicSwcInstanceRef', 'OPERATION-IREF'): (((),
                                                           (False,
                                                            (('CONTEXT-R-PORT-REF', (('DEST',), None), False),
                                                             ('TARGET-REQUIRED-OPERATION-REF', (('DEST',), None), False)))),
                                                          (('context_port', 'CONTEXT-R-PORT-REF'),
                                                           ('target_required_operation', 'TARGET-REQUIRED-OPERATION-REF'))),
 ('RTriggerInAtomicSwcInstanceRef', 'REQUIRED-TRIGGER-IREF'): (((),
                                                                (False,
                                                                 (('CONTEXT-R-PORT-REF', (('DEST',), None), False),
                                                                  ('TARGET-TRIGGER-REF', (('DEST',), None), False)))),
                                                               (('context_port', 'CONTEXT-R-PORT-REF'), ('target_trigger', 'TARGET-TRIGGER-REF'))),
 ('RTriggerInAtomicSwcInstanceRef', 'TRIGGER-IREF'): (((),
                                                       (False,
                                                        (('CONTEXT-R-PORT-REF', (('DEST',), None), False),
                                                         ('TARGET-TRIGGER-REF', (('DEST',), None), False)))),
                                                      (('context_port', 'CONTEXT-R-PORT-REF'), ('target_trigger', 'TARGET-TRIGGER-REF'))),
 ('RVariableInAtomicSwcInstanceRef', 'DATA-IREF'): (((),
                                                     (False,
                                                      (('CONTEXT-R-PORT-REF', (('DEST',), None), False),
                                                       ('TARGET-DATA-ELEMENT-REF', (('DEST',), None), False)))),
                                                    (('context_port', 'CONTEXT-R-PORT-REF'), ('target_data_element', 'TARGET-DATA-ELEMENT-REF'))),
 ('ReceptionComSpecProps', 'RECEPTION-PROPS'): (((), (False, (('DATA-UPDATE-PERIOD', ((), None), False), ('TIMEOUT', ((), None), False)))),
                                                (('data_update_period', 'DATA-UPDATE-PERIOD'), ('timeout', 'TIMEOUT'))),
 ('RecordValueSpecification', 'RECORD-VALUE-SPECIFICATION'): (((),
                                                               (False,
                                                                (('SHORT-LABEL', ((), None), False),
                                                                 ('FIELDS',
                                                                  ((),
                                                                   (True,
                                                                    (('TEXT-VALUE-SPECIFICATION', None, True),
                                                                     ('NUMERICAL-VALUE-SPECIFICATION', None, True),
                                                                     ('NOT-AVAILABLE-VALUE-SPECIFICATION', None, True),
                                                                     ('ARRAY-VALUE-SPECIFICATION', None, True),
                                                                     ('RECORD-VALUE-SPECIFICATION', None, True),
                                                                     ('APPLICATION-VALUE-SPECIFICATION', None, True),
                                                                     ('CONSTANT-REFERENCE', None, True)))),
                                                                  False)))),
                                                              (('label', 'SHORT-LABEL'), ('fields', 'FIELDS'))),
 ('RequirePortPrototype', 'R-PORT-PROTOTYPE'): ((('UUID',),
                                                 (False,
                                                  (('SHORT-NAME', ((), None), False),
                                                   ('LONG-NAME', None, False),
                                                   ('DESC', None, False),
                                                   ('CATEGORY', ((), None), False),
                                                   ('INTRODUCTION', None, False),
                                                   ('ANNOTATIONS', ((), (False, (('ANNOTATION', None, True),))), False),
                                                   ('MAY-BE-UNCONNECTED', ((), None), False),
                                                   ('REQUIRED-COM-SPECS',
                                                    ((),
                                                     (True,
                                                      (('CLIENT-COM-SPEC', None, True),
                                                       ('MODE-SWITCH-RECEIVER-COM-SPEC', None, True),
                                                       ('NONQUEUED-RECEIVER-COM-SPEC', None, True),
                                                       ('NV-REQUIRE-COM-SPEC', None, True),
                                                       ('PARAMETER-REQUIRE-COM-SPEC', None, True),
                                                       ('QUEUED-RECEIVER-COM-SPEC', None, True)))),
                                                    False),
                                                   ('REQUIRED-INTERFACE-TREF', None, False)))),
                                                (('name', 'SHORT-NAME'),
                                                 ('port_interface_ref', 'REQUIRED-INTERFACE-TREF'),
                                                 ('com_spec', 'REQUIRED-COM-SPECS'),
                                                 ('allow_unconnected', 'MAY-BE-UNCONNECTED'),
                                                 ('desc', 'DESC'),
                                                 ('category', 'CATEGORY'),
                                                 ('uuid', '@UUID'),
                                                 ('introduction', 'INTRODUCTION'),
                                                 ('annotations', 'ANNOTATIONS'),
                                                 ('long_name', 'LONG-NAME'))),
 ('RteEventRef', 'TRIGGER-REF'): ((('DEST',), None), ()),
 ('RunnableEntity', 'RUNNABLE-ENTITY'): ((('UUID',),
                                          (False,
                                           (('SHORT-NAME', ((), None), False),
                                            ('LONG-NAME', None, False),
                                            ('DESC', None, False),
                                            ('CATEGORY', ((), None), False),
                                            ('INTRODUCTION', None, False),
                                            ('ANNOTATIONS', ((), (False, (('ANNOTATION', None, True),))), False),
                                            ('ACTIVATION-REASONS', ((), (False, (('EXECUTABLE-ENTITY-ACTIVATION-REASON', None, True),))), False),
                                            ('CAN-ENTERS', ((), (False, (('EXCLUSIVE-AREA-REF-CONDITIONAL', None, True),))), False),
                                            ('EXCLUSIVE-AREA-NESTING-ORDER-REFS',
                                             ((), (False, (('EXCLUSIVE-AREA-NESTING-ORDER-REF', None, True),))),
                                             False),
                                            ('MINIMUM-START-INTERVAL', ((), None), False),
                                            ('REENTRANCY-LEVEL', ((), None), False),
                                            ('RUNS-INSIDES', ((), (False, (('EXCLUSIVE-AREA-REF-CONDITIONAL', None, True),))), False),
                                            ('SW-ADDR-METHOD-REF', (('DEST',), None), False),
                                            ('ARGUMENTS', ((), (False, (('RUNNABLE-ENTITY-ARGUMENT', None, True),))), False),
                                            ('ASYNCHRONOUS-SERVER-CALL-RESULT-POINTS',
                                             ((), (False, (('ASYNCHRONOUS-SERVER-CALL-RESULT-POINT', None, True),))),
                                             False),
                                            ('CAN-BE-INVOKED-CONCURRENTLY', ((), None), False),
                                            ('DATA-READ-ACCESSS', ((), (False, (('VARIABLE-ACCESS', None, True),))), False),
                                            ('DATA-RECEIVE-POINT-BY-ARGUMENTS', ((), (False, (('VARIABLE-ACCESS', None, True),))), False),
                                            ('DATA-RECEIVE-POINT-BY-VALUES', ((), (False, (('VARIABLE-ACCESS', None, True),))), False),
                                            ('DATA-SEND-POINTS', ((), (False, (('VARIABLE-ACCESS', None, True),))), False),
                                            ('DATA-WRITE-ACCESSS', ((), (False, (('VARIABLE-ACCESS', None, True),))), False),
                                            ('EXTERNAL-TRIGGERING-POINTS', ((), (False, (('EXTERNAL-TRIGGERING-POINT', None, True),))), False),
                                            ('INTERNAL-TRIGGERING-POINTS', ((), (False, (('INTERNAL-TRIGGERING-POINT', None, True),))), False),
                                            ('MODE-ACCESS-POINTS', ((), (False, (('MODE-ACCESS-POINT', None, True),))), False),
                                            ('MODE-SWITCH-POINTS', ((), (False, (('MODE-SWITCH-POINT', None, True),))), False),
                                            ('PARAMETER-ACCESSS', ((), (False, (('PARAMETER-ACCESS', None, True),))), False),
                                            ('READ-LOCAL-VARIABLES', ((), (False, (('VARIABLE-ACCESS', None, True),))), False),
                                            ('SERVER-CALL-POINTS',
                                             ((),
                                              (True,
                                               (('ASYNCHRONOUS-SERVER-CALL-POINT', None, True), ('SYNCHRONOUS-SERVER-CALL-POINT', None, True)))),
                                             False),
                                            ('SYMBOL', ((), None), False),
                                            ('WAIT-POINTS', ((), (False, (('WAIT-POINT', None, True),))), False),
                                            ('WRITTEN-LOCAL-VARIABLES', ((), (False, (('VARIABLE-ACCESS', None, True),))), False)))),
                                         (('name', 'SHORT-NAME'),
                                          ('argument', 'ARGUMENTS'),
                                          ('async_server_call_result_point', 'ASYNCHRONOUS-SERVER-CALL-RESULT-POINTS'),
                                          ('can_be_invoked_concurrently', 'CAN-BE-INVOKED-CONCURRENTLY'),
                                          ('data_read_access', 'DATA-READ-ACCESSS'),
                                          ('data_receive_point_by_argument', 'DATA-RECEIVE-POINT-BY-ARGUMENTS'),
                                          ('data_receive_point_by_value', 'DATA-RECEIVE-POINT-BY-VALUES'),
                                          ('data_send_point', 'DATA-SEND-POINTS'),
                                          ('data_write_access', 'DATA-WRITE-ACCESSS'),
                                          ('external_triggering_point', 'EXTERNAL-TRIGGERING-POINTS'),
                                          ('internal_triggering_point', 'INTERNAL-TRIGGERING-POINTS'),
                                          ('mode_access_point', 'MODE-ACCESS-POINTS'),
                                          ('mode_switch_point', 'MODE-SWITCH-POINTS'),
                                          ('parameter_access', 'PARAMETER-ACCESSS'),
                                          ('read_local_variable', 'READ-LOCAL-VARIABLES'),
                                          ('write_local_variable', 'WRITTEN-LOCAL-VARIABLES'),
                                          ('server_call_point', 'SERVER-CALL-POINTS'),
                                          ('wait_point', 'WAIT-POINTS'),
                                          ('symbol', 'SYMBOL'),
                                          ('activation_reasons', 'ACTIVATION-REASONS'),
                                          ('can_enter_leave', 'CAN-ENTERS'),
                                          ('exclusive_area_nesting_order', 'EXCLUSIVE-AREA-NESTING-ORDER-REFS'),
                                          ('minimum_start_interval', 'MINIMUM-START-INTERVAL'),
                                          ('reentrancy_level', 'REENTRANCY-LEVEL'),
                                          ('runs_insides', 'RUNS-INSIDES'),
                                          ('sw_addr_method', 'SW-ADDR-METHOD-REF'),
                                          ('desc', 'DESC'),
                                          ('category', 'CATEGORY'),
                                          ('uuid', '@UUID'),
                                          ('introduction', 'INTRODUCTION'),
                                          ('annotations', 'ANNOTATIONS'),
                                          ('long_name', 'LONG-NAME'))),
 ('RunnableEntityArgument', 'RUNNABLE-ENTITY-ARGUMENT'): (((), (False, (('SYMBOL', ((), None), False),))), (('symbol', 'SYMBOL'),)),
 ('RunnableEntityRef', 'START-ON-EVENT-REF'): ((('DEST',), None), ()),
 ('ScaleConstraint', 'SCALE-CONSTR'): ((('VALIDITY',),
                                        (False,
                                         (('SHORT-LABEL', ((), None), False),
                                          ('DESC', None, False),
                                          ('LOWER-LIMIT', (('INTERVAL-TYPE',), None), False),
                                          ('UPPER-LIMIT', (('INTERVAL-TYPE',), None), False)))),
                                       (('label', 'SHORT-LABEL'),
                                        ('desc', 'DESC'),
                                        ('lower_limit', 'LOWER-LIMIT'),
                                        ('upper_limit', 'UPPER-LIMIT'),
                                        ('validity', '@VALIDITY'))),
 ('SenderReceiverInterface', 'SENDER-RECEIVER-INTERFACE'): ((('UUID',),
                                                             (False,
                                                              (('SHORT-NAME', ((), None), False),
                                                               ('LONG-NAME', None, False),
                                                               ('DESC', None, False),
                                                               ('CATEGORY', ((), None), False),
                                                               ('INTRODUCTION', None, False),
                                                               ('ANNOTATIONS', ((), (False, (('ANNOTATION', None, True),))), False),
                                                               ('IS-SERVICE', ((), None), False),
                                                               ('SERVICE-KIND', ((), None), False),
                                                               ('DATA-ELEMENTS', ((), (False, (('VARIABLE-DATA-PROTOTYPE', None, True),))), False),
                                                               ('INVALIDATION-POLICYS',
                                                                ((), (False, (('INVALIDATION-POLICY', None, True),))),
                                                                False)))),
                                                            (('name', 'SHORT-NAME'),
                                                             ('data_elements', 'DATA-ELEMENTS'),
                                                             ('invalidation_policies', 'INVALIDATION-POLICYS'),
                                                             ('is_service', 'IS-SERVICE'),
                                                             ('service_kind', 'SERVICE-KIND'),
                                                             ('desc', 'DESC'),
                                                             ('category', 'CATEGORY'),
                                                             ('uuid', '@UUID'),
                                                             ('introduction', 'INTRODUCTION'),
                                                             ('annotations', 'ANNOTATIONS'),
                                                             ('long_name', 'LONG-NAME'))),
 ('ServerComSpec', 'SERVER-COM-SPEC'): (((),
                                         (False,
                                          (('OPERATION-REF', (('DEST',), None), False),
                                           ('QUEUE-LENGTH', ((), None), False),
                                           ('TRANSFORMATION-COM-SPEC-PROPSS',
                                            ((), (False, (('END-TO-END-TRANSFORMATION-COM-SPEC-PROPS', None, True),))),
                                            False)))),
                                        (('operation_ref', 'OPERATION-REF'),
                                         ('queue_length', 'QUEUE-LENGTH'),
                                         ('transformation_com_spec_props', 'TRANSFORMATION-COM-SPEC-PROPSS'))),
 ('SingleLanguageUnitNames', 'DISPLAY-NAME'): (((), (True, (('SUB', None, True), ('SUP', None, True)))), ()),
 ('SingleLanguageUnitNames', 'UNIT-DISPLAY-NAME'): (((), (True, (('SUB', None, True), ('SUP', None, True)))), ()),
 ('Subscript', 'SUB'): (((), None), ()),
 ('Superscript', 'SUP'): (((), None), ()),
 ('SwAddrMethod', 'SW-ADDR-METHOD'): ((('UUID',),
                                       (False,
                                        (('SHORT-NAME', ((), None), False),
                                         ('LONG-NAME', None, False),
                                         ('DESC', None, False),
                                         ('CATEGORY', ((), None), False),
                                         ('INTRODUCTION', None, False),
                                         ('ANNOTATIONS', ((), (False, (('ANNOTATION', None, True),))), False)))),
                                      (('name', 'SHORT-NAME'),
                                       ('desc', 'DESC'),
                                       ('category', 'CATEGORY'),
                                       ('uuid', '@UUID'),
                                       ('introduction', 'INTRODUCTION'),
                                       ('annotations', 'ANNOTATIONS'),
                                       ('long_name', 'LONG-NAME'))),
 ('SwAddrMethodRef', 'SW-ADDR-METHOD-REF'): ((('DEST',), None), ()),
 ('SwAxisCont', 'SW-AXIS-CONT'): (((),
                                   (False,
                                    (('CATEGORY', ((), None), False),
                                     ('UNIT-REF', None, False),
                                     ('UNIT-DISPLAY-NAME', None, False),
                                     ('SW-AXIS-INDEX', ((), None), False),
                                     ('SW-ARRAYSIZE', None, False),
                                     ('SW-VALUES-PHYS', None, False)))),
                                  (('category', 'CATEGORY'),
                                   ('unit_ref', 'UNIT-REF'),
                                   ('unit_display_name', 'UNIT-DISPLAY-NAME'),
                                   ('sw_axis_index', 'SW-AXIS-INDEX'),
                                   ('sw_array_size', 'SW-ARRAYSIZE'),
                                   ('sw_values_phys', 'SW-VALUES-PHYS'))),
 ('SwBaseType', 'SW-BASE-TYPE'): ((('UUID',),
                                   (False,
                                    (('SHORT-NAME', ((), None), False),
                                     ('LONG-NAME', None, False),
                                     ('DESC', None, False),
                                     ('CATEGORY', ((), None), False),
                                     ('INTRODUCTION', None, False),
                                     ('ANNOTATIONS', ((), (False, (('ANNOTATION', None, True),))), False),
                                     ('BASE-TYPE-SIZE', ((), None), False),
                                     ('MAX-BASE-TYPE-SIZE', ((), None), False),
                                     ('BASE-TYPE-ENCODING', ((), None), False),
                                     ('MEM-ALIGNMENT', ((), None), False),
                                     ('BYTE-ORDER', ((), None), False),
                                     ('NATIVE-DECLARATION', ((), None), False)))),
                                  (('name', 'SHORT-NAME'),
                                   ('size', 'BASE-TYPE-SIZE'),
                                   ('max_size', 'MAX-BASE-TYPE-SIZE'),
                                   ('encoding', 'BASE-TYPE-ENCODING'),
                                   ('alignment', 'MEM-ALIGNMENT'),
                                   ('byte_order', 'BYTE-ORDER'),
                                   ('native_declaration', 'NATIVE-DECLARATION'),
                                   ('desc', 'DESC'),
                                   ('category', 'CATEGORY'),
                                   ('uuid', '@UUID'),
                                   ('introduction', 'INTRODUCTION'),
                                   ('annotations', 'ANNOTATIONS'),
                                   ('long_name', 'LONG-NAME'))),
 ('SwBaseTypeRef', 'BASE-TYPE-REF'): ((('DEST',), None), ()),
 ('SwBitRepresentation', 'SW-BIT-REPRESENTATION'): (((), (False, (('BIT-POSITION', ((), None), False), ('NUMBER-OF-BITS', ((), None), False)))),
                                                    (('position', 'BIT-POSITION'), ('num_bits', 'NUMBER-OF-BITS'))),
 ('SwComponentPrototype', 'SW-COMPONENT-PROTOTYPE'): ((('UUID',),
                                                       (False,
                                                        (('SHORT-NAME', ((), None), False),
                                                         ('LONG-NAME', None, False),
                                                         ('DESC', None, False),
                                                         ('CATEGORY', ((), None), False),
                                                         ('INTRODUCTION', None, False),
                                                         ('ANNOTATIONS', ((), (False, (('ANNOTATION', None, True),))), False),
                                                         ('TYPE-TREF', None, False)))),
                                                      (('name', 'SHORT-NAME'),
                                                       ('type_ref', 'TYPE-TREF'),
                                                       ('desc', 'DESC'),
                                                       ('category', 'CATEGORY'),
                                                       ('uuid', '@UUID'),
                                                       ('introduction', 'INTRODUCTION'),
                                                       ('annotations', 'ANNOTATIONS'),
                                                       ('long_name', 'LONG-NAME'))),
 ('SwComponentPrototypeRef', 'CONTEXT-COMPONENT-REF'): ((('DEST',), None), ()),
 ('SwComponentTypeRef', 'TYPE-TREF'): ((('DEST',), None), ()),
 ('SwDataDefProps', 'NETWORK-REPRESENTATION'): (((),
                                                 (False,
                                                  (('SW-DATA-DEF-PROPS-VARIANTS',
                                                    ((), (False, (('SW-DATA-DEF-PROPS-CONDITIONAL', None, True),))),
                                                    False),))),
                                                (('variants', 'SW-DATA-DEF-PROPS-VARIANTS'),)),
 ('SwDataDefProps', 'SW-DATA-DEF-PROPS'): (((),
                                            (False,
                                             (('SW-DATA-DEF-PROPS-VARIANTS',
                                               ((), (False, (('SW-DATA-DEF-PROPS-CONDITIONAL', None, True),))),
                                               False),))),
                                           (('variants', 'SW-DATA-DEF-PROPS-VARIANTS'),)),
 ('SwDataDefPropsConditional', 'SW-DATA-DEF-PROPS-CONDITIONAL'): (((),
                                                                   (False,
                                                                    (('DISPLAY-PRESENTATION', ((), None), False),
                                                                     ('STEP-SIZE', ((), None), False),
                                                                     ('ANNOTATIONS', ((), (False, (('ANNOTATION', None, True),))), False),
                                                                     ('SW-ADDR-METHOD-REF', (('DEST',), None), False),
                                                                     ('SW-ALIGNMENT', ((), None), False),
                                                                     ('BASE-TYPE-REF', (('DEST',), None), False),
                                                                     ('SW-BIT-REPRESENTATION', None, False),
                                                                     ('SW-CALIBRATION-ACCESS', ((), None), False),
                                                                     ('SW-TEXT-PROPS', None, False),
                                                                     ('COMPU-METHOD-REF', (('DEST',), None), False),
                                                                     ('DISPLAY-FORMAT', ((), None), False),
                                                                     ('DATA-CONSTR-REF', (('DEST',), None), False),
                                                                     ('IMPLEMENTATION-DATA-TYPE-REF', (('DEST',), None), False),
                                                                     ('SW-IMPL-POLICY', ((), None), False),
                                                                     ('ADDITIONAL-NATIVE-TYPE-QUALIFIER', ((), None), False),
                                                                     ('SW-INTENDED-RESOLUTION', ((), None), False),
                                                                     ('SW-INTERPOLATION-METHOD', ((), None), False),
                                                                     ('SW-IS-VIRTUAL', ((), None), False),
                                                                     ('SW-POINTER-TARGET-PROPS', None, False),
                                                                     ('UNIT-REF', (('DEST',), None), False)))),
                                                                  (('display_presentation', 'DISPLAY-PRESENTATION'),
                                                                   ('step_size', 'STEP-SIZE'),
                                                                   ('annotations', 'ANNOTATIONS'),
                                                                   ('sw_addr_method_ref', 'SW-ADDR-METHOD-REF'),
                                                                   ('base_type_ref', 'BASE-TYPE-REF'),
                                                                   ('compu_method_ref', 'COMPU-METHOD-REF'),
                                                                   ('data_constraint_ref', 'DATA-CONSTR-REF'),
                                                                   ('impl_data_type_ref', 'IMPLEMENTATION-DATA-TYPE-REF'),
                                                                   ('unit_ref', 'UNIT-REF'),
                                                                   ('alignment', 'SW-ALIGNMENT'),
                                                                   ('bit_representation', 'SW-BIT-REPRESENTATION'),
                                                                   ('calibration_access', 'SW-CALIBRATION-ACCESS'),
                                                                   ('text_props', 'SW-TEXT-PROPS'),
                                                                   ('display_format', 'DISPLAY-FORMAT'),
                                                                   ('impl_policy', 'SW-IMPL-POLICY'),
                                                                   ('additional_native_type_qualifier', 'ADDITIONAL-NATIVE-TYPE-QUALIFIER'),
                                                                   ('intended_resolution', 'SW-INTENDED-RESOLUTION'),
                                                                   ('interpolation_method', 'SW-INTERPOLATION-METHOD'),
                                                                   ('is_virtual', 'SW-IS-VIRTUAL'),
                                                                   ('ptr_target_props', 'SW-POINTER-TARGET-PROPS'))),
 ('SwPointerTargetProps', 'SW-POINTER-TARGET-PROPS'): (((),
                                                        (False,
                                                         (('TARGET-CATEGORY', ((), None), False),
                                                          ('SW-DATA-DEF-PROPS', None, False),
                                                          ('FUNCTION-POINTER-SIGNATURE-REF', (('DEST',), None), False)))),
                                                       (('target_category', 'TARGET-CATEGORY'),
                                                        ('sw_data_def_props', 'SW-DATA-DEF-PROPS'),
                                                        ('function_ptr_signature_ref', 'FUNCTION-POINTER-SIGNATURE-REF'))),
 ('SwTextProps', 'SW-TEXT-PROPS'): (((),
                                     (False,
                                      (('ARRAY-SIZE-SEMANTICS', ((), None), False),
                                       ('SW-MAX-TEXT-SIZE', ((), None), False),
                                       ('BASE-TYPE-REF', (('DEST',), None), False),
                                       ('SW-FILL-CHARACTER', ((), None), False)))),
                                    (('array_size_semantics', 'ARRAY-SIZE-SEMANTICS'),
                                     ('max_text_size', 'SW-MAX-TEXT-SIZE'),
                                     ('base_type_ref', 'BASE-TYPE-REF'),
                                     ('fill_char', 'SW-FILL-CHARACTER'))),
 ('SwValueCont', 'SW-VALUE-CONT'): (((),
                                     (False,
                                      (('UNIT-REF', None, False),
                                       ('UNIT-DISPLAY-NAME', None, False),
                                       ('SW-ARRAYSIZE', None, False),
                                       ('SW-VALUES-PHYS', None, False)))),
                                    (('unit_ref', 'UNIT-REF'),
                                     ('unit_display_name', 'UNIT-DISPLAY-NAME'),
                                     ('sw_array_size', 'SW-ARRAYSIZE'),
                                     ('sw_values_phys', 'SW-VALUES-PHYS'))),
 ('SwValues', 'SW-VALUES-PHYS'): (((), (True, (('VT', ((), None), True), ('V', ((), None), True), ('VG', None, True)))), ()),
 ('SwcImplementation', 'SWC-IMPLEMENTATION'): ((('UUID',),
                                                (False,
                                                 (('SHORT-NAME', ((), None), False),
                                                  ('LONG-NAME', None, False),
                                                  ('DESC', None, False),
                                                  ('CATEGORY', ((), None), False),
                                                  ('INTRODUCTION', None, False),
                                                  ('ANNOTATIONS', ((), (False, (('ANNOTATION', None, True),))), False),
                                                  ('CODE-DESCRIPTORS', ((), (False, (('CODE', None, True),))), False),
                                                  ('BEHAVIOR-REF', (('DEST',), None), False),
                                                  ('REQUIRED-RTE-VENDOR', ((), None), False)))),
                                               (('name', 'SHORT-NAME'),
                                                ('behavior_ref', 'BEHAVIOR-REF'),
                                                ('code_descriptors', 'CODE-DESCRIPTORS'),
                                                ('required_rte_vendor', 'REQUIRED-RTE-VENDOR'),
                                                ('desc', 'DESC'),
                                                ('category', 'CATEGORY'),
                                                ('uuid', '@UUID'),
                                                ('introduction', 'INTRODUCTION'),
                                                ('annotations', 'ANNOTATIONS'),
                                                ('long_name', 'LONG-NAME'))),
 ('SwcInternalBehavior', 'SWC-INTERNAL-BEHAVIOR'): ((('UUID',),
                                                     (False,
                                                      (('SHORT-NAME', ((), None), False),
                                                       ('LONG-NAME', None, False),
                                                       ('DESC', None, False),
                                                       ('CATEGORY', ((), None), False),
                                                       ('INTRODUCTION', None, False),
                                                       ('ANNOTATIONS', ((), (False, (('ANNOTATION', None, True),))), False),
                                                       ('DATA-TYPE-MAPPING-REFS', ((), (False, (('DATA-TYPE-MAPPING-REF', None, True),))), False),
                                                       ('EXCLUSIVE-AREAS', ((), (False, (('EXCLUSIVE-AREA', None, True),))), False),
                                                       ('EVENTS',
                                                        ((),
                                                         (True,
                                                          (('ASYNCHRONOUS-SERVER-CALL-RETURNS-EVENT', None, True),
                                                           ('BACKGROUND-EVENT', None, True),
                                                           ('DATA-RECEIVE-ERROR-EVENT', None, True),
                                                           ('DATA-RECEIVED-EVENT', None, True),
                                                           ('DATA-SEND-COMPLETED-EVENT', None, True),
                                                           ('DATA-WRITE-COMPLETED-EVENT', None, True),
                                                           ('EXTERNAL-TRIGGER-OCCURRED-EVENT', None, True),
                                                           ('INIT-EVENT', None, True),
                                                           ('INTERNAL-TRIGGER-OCCURRED-EVENT', None, True),
                                                           ('MODE-SWITCHED-ACK-EVENT', None, True),
                                                           ('OPERATION-INVOKED-EVENT', None, True),
                                                           ('SWC-MODE-MANAGER-ERROR-EVENT', None, True),
                                                           ('SWC-MODE-SWITCH-EVENT', None, True),
                                                           ('TIMING-EVENT', None, True),
                                                           ('TRANSFORMER-HARD-ERROR-EVENT', None, True)))),
                                                        False),
                                                       ('PORT-API-OPTIONS', ((), (False, (('PORT-API-OPTION', None, True),))), False),
                                                       ('RUNNABLES', ((), (False, (('RUNNABLE-ENTITY', None, True),))), False)))),
                                                    (('name', 'SHORT-NAME'),
                                                     ('events', 'EVENTS'),
                                                     ('runnables', 'RUNNABLES'),
                                                     ('data_type_mappings', 'DATA-TYPE-MAPPING-REFS'),
                                                     ('exclusive_areas', 'EXCLUSIVE-AREAS'),
                                                     ('desc', 'DESC'),
                                                     ('category', 'CATEGORY'),
                                                     ('uuid', '@UUID'),
                                                     ('introduction', 'INTRODUCTION'),
                                                     ('annotations', 'ANNOTATIONS'),
                                                     ('long_name', 'LONG-NAME'))),
 ('SwcInternalBehaviorRef', 'BEHAVIOR-REF'): ((('DEST',), None), ()),
 ('SwcModeManagerErrorEvent', 'SWC-MODE-MANAGER-ERROR-EVENT'): ((('UUID',),
                                                                 (False,
                                                                  (('SHORT-NAME', ((), None), False),
                                                                   ('LONG-NAME', None, False),
                                                                   ('DESC', None, False),
                                                                   ('CATEGORY', ((), None), False),
                                                                   ('INTRODUCTION', None, False),
                                                                   ('ANNOTATIONS', ((), (False, (('ANNOTATION', None, True),))), False),
                                                                   ('DISABLED-MODE-IREFS',
                                                                    ((), (False, (('DISABLED-MODE-IREF', None, True),))),
                                                                    False),
                                                                   ('START-ON-EVENT-REF', (('DEST',), None), False),
                                                                   ('MODE-GROUP-IREF', None, False)))),
                                                                (('name', 'SHORT-NAME'),
                                                                 ('start_on_event', 'START-ON-EVENT-REF'),
                                                                 ('mode_group', 'MODE-GROUP-IREF'),
                                                                 ('disabled_modes', 'DISABLED-MODE-IREFS'),
                                                                 ('desc', 'DESC'),
                                                                 ('category', 'CATEGORY'),
                                                                 ('uuid', '@UUID'),
                                                                 ('introduction', 'INTRODUCTION'),
                                                                 ('annotations', 'ANNOTATIONS'),
                                                                 ('long_name', 'LONG-NAME'))),
 ('SwcModeSwitchEvent', 'SWC-MODE-SWITCH-EVENT'): ((('UUID',),
                                                    (False,
                                                     (('SHORT-NAME', ((), None), False),
                                                      ('LONG-NAME', None, False),
                                                      ('DESC', None, False),
                                                      ('CATEGORY', ((), None), False),
                                                      ('INTRODUCTION', None, False),
                                                      ('ANNOTATIONS', ((), (False, (('ANNOTATION', None, True),))), False),
                                                      ('DISABLED-MODE-IREFS', ((), (False, (('DISABLED-MODE-IREF', None, True),))), False),
                                                      ('START-ON-EVENT-REF', (('DEST',), None), False),
                                                      ('ACTIVATION', ((), None), False),
                                                      ('MODE-IREFS', ((), (False, (('MODE-IREF', None, True),))), False)))),
                                                   (('name', 'SHORT-NAME'),
                                                    ('start_on_event', 'START-ON-EVENT-REF'),
                                                    ('activation', 'ACTIVATION'),
                                                    ('mode', 'MODE-IREFS'),
                                                    ('disabled_modes', 'DISABLED-MODE-IREFS'),
                                                    ('desc', 'DESC'),
                                                    ('category', 'CATEGORY'),
                                                    ('uuid', '@UUID'),
                                                    ('introduction', 'INTRODUCTION'),
                                                    ('annotations', 'ANNOTATIONS'),
                                                    ('long_name', 'LONG-NAME'))),
 ('SymbolProps', 'SYMBOL-PROPS'): (((), (False, (('SHORT-NAME', ((), None), False), ('SYMBOL', ((), None), False)))),
                                   (('name', 'SHORT-NAME'), ('symbol', 'SYMBOL'))),
 ('SynchronousServerCallPoint', 'SYNCHRONOUS-SERVER-CALL-POINT'): ((('UUID',),
                                                                    (False,
                                                                     (('SHORT-NAME', ((), None), False),
                                                                      ('LONG-NAME', None, False),
                                                                      ('DESC', None, False),
                                                                      ('CATEGORY', ((), None), False),
                                                                      ('INTRODUCTION', None, False),
                                                                      ('ANNOTATIONS', ((), (False, (('ANNOTATION', None, True),))), False),
                                                                      ('RETURN-VALUE-PROVISION', ((), None), False),
                                                                      ('OPERATION-IREF', None, False),
                                                                      ('TIMEOUT', ((), None), False),
                                                                      ('CALLED-FROM-WITHIN-EXCLUSIVE-AREA-REF', (('DEST',), None), False)))),
                                                                   (('name', 'SHORT-NAME'),
                                                                    ('called_from_within_exclusive_area', 'CALLED-FROM-WITHIN-EXCLUSIVE-AREA-REF'),
                                                                    ('operation', 'OPERATION-IREF'),
                                                                    ('timeout', 'TIMEOUT'),
                                                                    ('return_value_provision', 'RETURN-VALUE-PROVISION'),
                                                                    ('desc', 'DESC'),
                                                                    ('category', 'CATEGORY'),
                                                                    ('uuid', '@UUID'),
                                                                    ('introduction', 'INTRODUCTION'),
                                                                    ('annotations', 'ANNOTATIONS'),
                                                                    ('long_name', 'LONG-NAME'))),
 ('TechnicalTerm', 'TT'): ((('TEX-RENDER', 'TYPE'), None), (('tex_render', '@TEX-RENDER'), ('type', '@TYPE'))),
 ('TextValueSpecification', 'TEXT-VALUE-SPECIFICATION'): (((), (False, (('SHORT-LABEL', ((), None), False), ('VALUE', ((), None), False)))),
                                                          (('label', 'SHORT-LABEL'), ('value', 'VALUE'))),
 ('TimingEvent', 'TIMING-EVENT'): ((('UUID',),
                                    (False,
                                     (('SHORT-NAME', ((), None), False),
                                      ('LONG-NAME', None, False),
                                      ('DESC', None, False),
                                      ('CATEGORY', ((), None), False),
                                      ('INTRODUCTION', None, False),
                                      ('ANNOTATIONS', ((), (False, (('ANNOTATION', None, True),))), False),
                                      ('DISABLED-MODE-IREFS', ((), (False, (('DISABLED-MODE-IREF', None, True),))), False),
                                      ('START-ON-EVENT-REF', (('DEST',), None), False),
                                      ('OFFSET', ((), None), False),
                                      ('PERIOD', ((), None), False)))),
                                   (('name', 'SHORT-NAME'),
                                    ('start_on_event', 'START-ON-EVENT-REF'),
                                    ('period', 'PERIOD'),
                                    ('offset', 'OFFSET'),
                                    ('disabled_modes', 'DISABLED-MODE-IREFS'),
                                    ('desc', 'DESC'),
                                    ('category', 'CATEGORY'),
                                    ('uuid', '@UUID'),
                                    ('introduction', 'INTRODUCTION'),
                                    ('annotations', 'ANNOTATIONS'),
                                    ('long_name', 'LONG-NAME'))),
 ('TransformerHardErrorEvent', 'TRANSFORMER-HARD-ERROR-EVENT'): ((('UUID',),
                                                                  (False,
                                                                   (('SHORT-NAME', ((), None), False),
                                                                    ('LONG-NAME', None, False),
                                                                    ('DESC', None, False),
                                                                    ('CATEGORY', ((), None), False),
                                                                    ('INTRODUCTION', None, False),
                                                                    ('ANNOTATIONS', ((), (False, (('ANNOTATION', None, True),))), False),
                                                                    ('DISABLED-MODE-IREFS',
                                                                     ((), (False, (('DISABLED-MODE-IREF', None, True),))),
                                                                     False),
                                                                    ('START-ON-EVENT-REF', (('DEST',), None), False),
                                                                    ('OPERATION-IREF', None, False),
                                                                    ('REQUIRED-TRIGGER-IREF', None, False),
                                                                    ('TRIGGER-IREF', None, False)))),
                                                                 (('name', 'SHORT-NAME'),
                                                                  ('start_on_event', 'START-ON-EVENT-REF'),
                                                                  ('operation', 'OPERATION-IREF'),
                                                                  ('required_trigger', 'REQUIRED-TRIGGER-IREF'),
                                                                  ('trigger', 'TRIGGER-IREF'),
                                                                  ('disabled_modes', 'DISABLED-MODE-IREFS'),
                                                                  ('desc', 'DESC'),
                                                                  ('category', 'CATEGORY'),
                                                                  ('uuid', '@UUID'),
                                                                  ('introduction', 'INTRODUCTION'),
                                                                  ('annotations', 'ANNOTATIONS'),
                                                                  ('long_name', 'LONG-NAME'))),
 ('TransmissionAcknowledgementRequest', 'TRANSMISSION-ACKNOWLEDGE'): (((), (False, (('TIMEOUT', ((), None), False),))), (('timeout', 'TIMEOUT'),)),
 ('TransmissionComSpecProps', 'TRANSMISSION-PROPS'): (((),
                                                       (False,
                                                        (('DATA-UPDATE-PERIOD', ((), None), False),
                                                         ('MINIMUM-SEND-INTERVAL', ((), None), False),
                                                         ('TRANSMISSION-MODE', ((), None), False)))),
                                                      (('data_update_period', 'DATA-UPDATE-PERIOD'),
                                                       ('minimum_send_interval', 'MINIMUM-SEND-INTERVAL'),
                                                       ('transmission_mode', 'TRANSMISSION-MODE'))),
 ('TriggerRef', 'TARGET-TRIGGER-REF'): ((('DEST',), None), ()),
 ('Unit', 'UNIT'): ((('UUID',),
                     (False,
                      (('SHORT-NAME', ((), None), False),
                       ('LONG-NAME', None, False),
                       ('DESC', None, False),
                       ('CATEGORY', ((), None), False),
                       ('INTRODUCTION', None, False),
                       ('ANNOTATIONS', ((), (False, (('ANNOTATION', None, True),))), False),
                       ('DISPLAY-NAME', None, False),
                       ('FACTOR-SI-TO-UNIT', ((), None), False),
                       ('OFFSET-SI-TO-UNIT', ((), None), False),
                       ('PHYSICAL-DIMENSION-REF', None, False)))),
                    (('name', 'SHORT-NAME'),
                     ('display_name', 'DISPLAY-NAME'),
                     ('factor', 'FACTOR-SI-TO-UNIT'),
                     ('offset', 'OFFSET-SI-TO-UNIT'),
                     ('physical_dimension_ref', 'PHYSICAL-DIMENSION-REF'),
                     ('desc', 'DESC'),
                     ('category', 'CATEGORY'),
                     ('uuid', '@UUID'),
                     ('introduction', 'INTRODUCTION'),
                     ('annotations', 'ANNOTATIONS'),
                     ('long_name', 'LONG-NAME'))),
 ('UnitRef', 'UNIT-REF'): ((('DEST',), None), ()),
 ('ValueGroup', 'VG'): (((), (True, (('LABEL', None, False), ('VT', ((), None), True), ('V', ((), None), True), ('VG', None, True)))),
                        (('label', 'LABEL'),)),
 ('ValueList', 'SW-ARRAYSIZE'): (((), (False, (('V', ((), None), True),))), (('values', 'V'),)),
 ('VariableAccess', 'REPLACE-WITH'): ((('UUID',),
                                       (False,
                                        (('SHORT-NAME', ((), None), False),
                                         ('LONG-NAME', None, False),
                                         ('DESC', None, False),
                                         ('CATEGORY', ((), None), False),
                                         ('INTRODUCTION', None, False),
                                         ('ANNOTATIONS', ((), (False, (('ANNOTATION', None, True),))), False),
                                         ('ACCESSED-VARIABLE', None, False),
                                         ('SCOPE', ((), None), False)))),
                                      (('name', 'SHORT-NAME'),
                                       ('accessed_variable', 'ACCESSED-VARIABLE'),
                                       ('scope', 'SCOPE'),
                                       ('desc', 'DESC'),
                                       ('category', 'CATEGORY'),
                                       ('uuid', '@UUID'),
                                       ('introduction', 'INTRODUCTION'),
                                       ('annotations', 'ANNOTATIONS'),
                                       ('long_name', 'LONG-NAME'))),
 ('VariableAccess', 'VARIABLE-ACCESS'): ((('UUID',),
                                          (False,
                                           (('SHORT-NAME', ((), None), False),
                                            ('LONG-NAME', None, False),
                                            ('DESC', None, False),
                                            ('CATEGORY', ((), None), False),
                                            ('INTRODUCTION', None, False),
                                            ('ANNOTATIONS', ((), (False, (('ANNOTATION', None, True),))), False),
                                            ('ACCESSED-VARIABLE', None, False),
                                            ('SCOPE', ((), None), False)))),
                                         (('name', 'SHORT-NAME'),
                                          ('accessed_variable', 'ACCESSED-VARIABLE'),
                                          ('scope', 'SCOPE'),
                                          ('desc', 'DESC'),
                                          ('category', 'CATEGORY'),
                                          ('uuid', '@UUID'),
                                          ('introduction', 'INTRODUCTION'),
                                          ('annotations', 'ANNOTATIONS'),
                                          ('long_name', 'LONG-NAME'))),
 ('VariableAccessRef', 'EVENT-SOURCE-REF'): ((('DEST',), None), ()),
 ('VariableDataPrototype', 'VARIABLE-DATA-PROTOTYPE'): ((('UUID',),
                                                         (False,
                                                          (('SHORT-NAME', ((), None), False),
                                                           ('LONG-NAME', None, False),
                                                           ('DESC', None, False),
                                                           ('CATEGORY', ((), None), False),
                                                           ('INTRODUCTION', None, False),
                                                           ('ANNOTATIONS', ((), (False, (('ANNOTATION', None, True),))), False),
                                                           ('SW-DATA-DEF-PROPS', None, False),
                                                           ('TYPE-TREF', (('DEST',), None), False),
                                                           ('INIT-VALUE',
                                                            ((),
                                                             (False,
                                                              (('TEXT-VALUE-SPECIFICATION', None, False),
                                                               ('NUMERICAL-VALUE-SPECIFICATION', None, False),
                                                               ('NOT-AVAILABLE-VALUE-SPECIFICATION', None, False),
                                                               ('ARRAY-VALUE-SPECIFICATION', None, False),
                                                               ('RECORD-VALUE-SPECIFICATION', None, False),
                                                               ('APPLICATION-VALUE-SPECIFICATION', None, False),
                                                               ('CONSTANT-REFERENCE', None, False)))),
                                                            False)))),
                                                        (('name', 'SHORT-NAME'),
                                                         ('init_value', 'INIT-VALUE'),
                                                         ('type_ref', 'TYPE-TREF'),
                                                         ('sw_data_def_props', 'SW-DATA-DEF-PROPS'),
                                                         ('desc', 'DESC'),
                                                         ('category', 'CATEGORY'),
                                                         ('uuid', '@UUID'),
                                                         ('introduction', 'INTRODUCTION'),
                                                         ('annotations', 'ANNOTATIONS'),
                                                         ('long_name', 'LONG-NAME'))),
 ('VariableDataPrototypeRef', 'DATA-ELEMENT-REF'): ((('DEST',), None), ()),
 ('VariableDataPrototypeRef', 'LOCAL-VARIABLE-REF'): ((('DEST',), None), ()),
 ('VariableDataPrototypeRef', 'ROOT-VARIABLE-DATA-PROTOTYPE-REF'): ((('DEST',), None), ()),
 ('VariableDataPrototypeRef', 'TARGET-DATA-ELEMENT-REF'): ((('DEST',), None), ()),
 ('VariableDataPrototypeRef', 'VARIABLE-REF'): ((('DEST',), None), ()),
 ('VariableInAtomicSWCTypeInstanceRef', 'AUTOSAR-VARIABLE-IREF'): (((),
                                                                    (False,
                                                                     (('PORT-PROTOTYPE-REF', (('DEST',), None), False),
                                                                      ('ROOT-VARIABLE-DATA-PROTOTYPE-REF', (('DEST',), None), False),
                                                                      ('CONTEXT-DATA-PROTOTYPE-REF', None, True),
                                                                      ('TARGET-DATA-PROTOTYPE-REF', (('DEST',), None), False)))),
                                                                   (('port_prototype_ref', 'PORT-PROTOTYPE-REF'),
                                                                    ('root_variable_data_prototype_ref', 'ROOT-VARIABLE-DATA-PROTOTYPE-REF'),
                                                                    ('target_data_prototype_ref', 'TARGET-DATA-PROTOTYPE-REF'))),
 ('WaitPoint', 'WAIT-POINT'): ((('UUID',),
                                (False,
                                 (('SHORT-NAME', ((), None), False),
                                  ('LONG-NAME', None, False),
                                  ('DESC', None, False),
                                  ('CATEGORY', ((), None), False),
                                  ('INTRODUCTION', None, False),
                                  ('ANNOTATIONS', ((), (False, (('ANNOTATION', None, True),))), False),
                                  ('TIMEOUT', ((), None), False),
                                  ('TRIGGER-REF', (('DEST',), None), False)))),
                               (('name', 'SHORT-NAME'),
                                ('trigger', 'TRIGGER-REF'),
                                ('timeout', 'TIMEOUT'),
                                ('desc', 'DESC'),
                                ('category', 'CATEGORY'),
                                ('uuid', '@UUID'),
                                ('introduction', 'INTRODUCTION'),
                                ('annotations', 'ANNOTATIONS'),
                                ('long_name', 'LONG-NAME')))}
