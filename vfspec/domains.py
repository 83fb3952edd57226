"""Documented domains of the constructor parameters (frozen; see tools/freeze_domains.py).

These are the input preconditions of the contracts: which values a user may pass for each
parameter of each element class.
"""

TABLE = {'NumericalValue': [('value', ('or', 'int', 'float')), ('value_format', ('enum', 'ValueFormat'))],
 'PositiveIntegerValue': [('value', 'int'), ('value_format', ('enum', 'ValueFormat'))],
 'Referrable': [('name', 'str')],
 'MultiLanguageReferrable': [('name', 'str'), ('long_name', ('opt', ('obj', 'MultilanguageLongName')))],
 'Identifiable': [('name', 'str'),
                  ('desc', ('opt', ('obj', 'MultiLanguageOverviewParagraph'))),
                  ('category', ('opt', 'str')),
                  ('uuid', ('opt', 'str')), ('introduction', ('opt', ('obj', 'DocumentationBlock'))), ('annotations', ('opt', ('list', ('obj', 'Annotation')))),
                  ('long_name', ('opt', ('obj', 'MultilanguageLongName')))],
 'CollectableElement': [('name', 'str'),
                        ('desc', ('opt', ('obj', 'MultiLanguageOverviewParagraph'))),
                        ('category', ('opt', 'str')),
                        ('uuid', ('opt', 'str')), ('introduction', ('opt', ('obj', 'DocumentationBlock'))), ('annotations', ('opt', ('list', ('obj', 'Annotation')))),
                        ('long_name', ('opt', ('obj', 'MultilanguageLongName')))],
 'ARElement': [('name', 'str'),
               ('desc', ('opt', ('obj', 'MultiLanguageOverviewParagraph'))),
               ('category', ('opt', 'str')),
               ('uuid', ('opt', 'str')), ('introduction', ('opt', ('obj', 'DocumentationBlock'))), ('annotations', ('opt', ('list', ('obj', 'Annotation')))),
               ('long_name', ('opt', ('obj', 'MultilanguageLongName')))],
 'DataFilter': [('data_filter_type', ('opt', ('enum', 'DataFilterType'))),
                ('min_val', ('opt', 'int')),
                ('max_val', ('opt', 'int')),
                ('mask', ('opt', 'int')),
                ('offset', ('opt', 'nat')),
                ('period', ('opt', 'nat')),
                ('x', ('opt', 'int'))],
 'EngineeringObject': [('label', ('opt', 'str')), ('category', ('opt', 'str'))],
 'AutosarEngineeringObject': [('label', ('opt', 'str')), ('category', ('opt', 'str'))],
 'Code': [('name', 'str'),
          ('artifact_descriptors', ('opt', ('list', ('obj', 'AutosarEngineeringObject')))),
          ('desc', ('opt', ('obj', 'MultiLanguageOverviewParagraph'))),
          ('category', ('opt', 'str')),
          ('uuid', ('opt', 'str')), ('introduction', ('opt', ('obj', 'DocumentationBlock'))), ('annotations', ('opt', ('list', ('obj', 'Annotation')))),
          ('long_name', ('opt', ('obj', 'MultilanguageLongName')))],
 'Implementation': [('name', 'str'),
                    ('code_descriptors', ('opt', ('list', ('obj', 'Code')))),
                    ('desc', ('opt', ('obj', 'MultiLanguageOverviewParagraph'))),
                    ('category', ('opt', 'str')),
                    ('uuid', ('opt', 'str')), ('introduction', ('opt', ('obj', 'DocumentationBlock'))), ('annotations', ('opt', ('list', ('obj', 'Annotation')))),
                    ('long_name', ('opt', ('obj', 'MultilanguageLongName')))],
 'Break': [],
 'EmphasisText': [('elements', 'str'),
                  ('color', ('opt', 'str')),
                  ('font', ('opt', ('enum', 'EmphasisFont'))),
                  ('type', ('opt', ('enum', 'EmphasisType')))],
 'IndexEntry': [('text', 'str')],
 'TechnicalTerm': [('text', 'str'), ('tex_render', ('opt', 'str')), ('type', ('opt', 'str'))],
 'Subscript': [('text', 'str')],
 'Superscript': [('text', 'str')],
 'LanguageSpecific': [('language', ('enum', 'Language'))],
 'MixedContentForLongName': [('language', ('enum', 'Language'))],
 'MixedContentForOverviewParagraph': [('language', ('enum', 'Language'))],
 'LanguageLongName': [('language', ('enum', 'Language')),
                      ('parts',
                       ('mixed',
                        ('obj', 'EmphasisText'),
                        ('obj', 'IndexEntry'),
                        ('obj', 'Subscript'),
                        ('obj', 'Superscript'),
                        ('obj', 'TechnicalTerm')))],
 'MultilanguageLongName': [('long_name', ('opt', ('obj', 'LanguageLongName')))],
 'LanguageOverviewParagraph': [('language', ('enum', 'Language')),
                               ('parts',
                                ('mixed',
                                 ('obj', 'Break'),
                                 ('obj', 'EmphasisText'),
                                 ('obj', 'IndexEntry'),
                                 ('obj', 'Subscript'),
                                 ('obj', 'Superscript'),
                                 ('obj', 'TechnicalTerm')))],
 'MultiLanguageOverviewParagraph': [('paragraph', ('opt', ('obj', 'LanguageOverviewParagraph')))],
 'DocumentViewSelectable': [('semantic_information', ('opt', 'str')), ('view', ('opt', 'str'))],
 'Paginateable': [('page_break', ('opt', ('enum', 'PageBreak'))),
                  ('keep_with_previous', ('opt', ('enum', 'KeepWithPrevious'))),
                  ('semantic_information', ('opt', 'str')),
                  ('view', ('opt', 'str'))],
 'MixedContentForParagraph': [('language', ('enum', 'Language'))],
 'LanguageParagraph': [('language', ('enum', 'Language')),
                       ('parts',
                        ('mixed',
                         ('obj', 'Break'),
                         ('obj', 'EmphasisText'),
                         ('obj', 'IndexEntry'),
                         ('obj', 'Subscript'),
                         ('obj', 'Superscript'),
                         ('obj', 'TechnicalTerm')))],
 'MultiLanguageParagraph': [('paragraph', ('opt', ('obj', 'LanguageParagraph'))),
                            ('help_entry', ('opt', 'str')),
                            ('page_break', ('opt', ('enum', 'PageBreak'))),
                            ('keep_with_previous', ('opt', ('enum', 'KeepWithPrevious'))),
                            ('semantic_information', ('opt', 'str')),
                            ('view', ('opt', 'str'))],
 'MixedContentForVerbatim': [('language', ('enum', 'Language'))],
 'LanguageVerbatim': [('language', ('enum', 'Language')),
                      ('parts', ('mixed', ('obj', 'Break'), ('obj', 'EmphasisText'), ('obj', 'TechnicalTerm')))],
 'MultiLanguageVerbatim': [('element', ('opt', ('obj', 'LanguageVerbatim'))),
                           ('allow_break', ('opt', 'str')),
                           ('float', ('opt', ('enum', 'Float'))),
                           ('page_wide', ('opt', ('enum', 'PageWide'))),
                           ('help_entry', ('opt', 'str')),
                           ('page_break', ('opt', ('enum', 'PageBreak'))),
                           ('keep_with_previous', ('opt', ('enum', 'KeepWithPrevious'))),
                           ('semantic_information', ('opt', 'str')),
                           ('view', ('opt', 'str'))],
 'MixedContentForUnitNames': [],
 'SingleLanguageUnitNames': [('parts', ('mixed', ('obj', 'Subscript'), ('obj', 'Superscript')))],
 'DocumentationBlock': [('element',
                         ('list', ('or', ('obj', 'MultiLanguageParagraph'), ('obj', 'MultiLanguageVerbatim'))))],
 'GeneralAnnotation': [('label', ('opt', ('obj', 'MultilanguageLongName'))),
                       ('origin', ('opt', 'str')),
                       ('text', ('opt', ('obj', 'DocumentationBlock')))],
 'Annotation': [('label', ('opt', ('obj', 'MultilanguageLongName'))),
                ('origin', ('opt', 'str')),
                ('text', ('opt', ('obj', 'DocumentationBlock')))],
 'Describable': [('desc', ('opt', ('obj', 'MultiLanguageOverviewParagraph'))),
                 ('category', ('opt', 'str')),
                 ('introduction', ('opt', ('obj', 'DocumentationBlock')))],
 'CompuRational': [('numerator', ('opt', ('list1', ('or', 'int', 'float')))),
                   ('denominator', ('opt', ('list1', ('or', 'int', 'float'))))],
 'CompuConst': [('value', ('or', 'int', 'float', 'str'))],
 'CompuScale': [('content', ('opt', ('or', ('obj', 'CompuConst'), ('obj', 'CompuRational')))),
                ('lower_limit', ('opt', ('or', 'int', 'float'))),
                ('upper_limit', ('opt', ('or', 'int', 'float'))),
                ('label', ('opt', 'str')),
                ('symbol', ('opt', 'str')),
                ('desc', ('opt', ('obj', 'MultiLanguageOverviewParagraph'))),
                ('mask', ('opt', 'int')),
                ('inverse_value', ('opt', ('obj', 'CompuConst'))),
                ('lower_limit_type', ('enum', 'IntervalType')),
                ('upper_limit_type', ('enum', 'IntervalType'))],
 'Computation': [('compu_scales', ('opt', ('list', ('obj', 'CompuScale')))),
                 ('default_value', ('opt', ('obj', 'CompuConst')))],
 'CompuMethod': [('name', 'str'),
                 ('int_to_phys', ('opt', ('obj', 'Computation'))),
                 ('phys_to_int', ('opt', ('obj', 'Computation'))),
                 ('unit_ref', ('opt', ('ref', 'UnitRef'))),
                 ('display_format', ('opt', 'str')),
                 ('desc', ('opt', ('obj', 'MultiLanguageOverviewParagraph'))),
                 ('category', ('opt', 'str')),
                 ('uuid', ('opt', 'str')), ('introduction', ('opt', ('obj', 'DocumentationBlock'))), ('annotations', ('opt', ('list', ('obj', 'Annotation')))),
                 ('long_name', ('opt', ('obj', 'MultilanguageLongName')))],
 'LimitObject': [('lower_limit', ('opt', ('or', 'int', 'float'))),
                 ('upper_limit', ('opt', ('or', 'int', 'float'))),
                 ('lower_limit_type', ('enum', 'IntervalType')),
                 ('upper_limit_type', ('enum', 'IntervalType'))],
 'ScaleConstraint': [('label', ('opt', 'str')),
                     ('desc', ('opt', ('obj', 'MultiLanguageOverviewParagraph'))),
                     ('lower_limit', ('opt', ('or', 'int', 'float'))),
                     ('upper_limit', ('opt', ('or', 'int', 'float'))),
                     ('validity', ('opt', ('enum', 'ScaleConstraintValidity'))),
                     ('lower_limit_type', ('enum', 'IntervalType')),
                     ('upper_limit_type', ('enum', 'IntervalType'))],
 'ConstraintBase': [('lower_limit', ('opt', ('or', 'int', 'float'))),
                    ('upper_limit', ('opt', ('or', 'int', 'float'))),
                    ('scale_constrs', ('opt', ('list', ('obj', 'ScaleConstraint')))),
                    ('max_gradient', ('opt', ('or', 'int', 'float'))),
                    ('max_diff', ('opt', ('or', 'int', 'float'))),
                    ('monotony', ('opt', ('enum', 'Monotony'))),
                    ('lower_limit_type', ('enum', 'IntervalType')),
                    ('upper_limit_type', ('enum', 'IntervalType'))],
 'InternalConstraint': [('lower_limit', ('opt', ('or', 'int', 'float'))),
                        ('upper_limit', ('opt', ('or', 'int', 'float'))),
                        ('scale_constr', ('opt', ('list', ('obj', 'ScaleConstraint')))),
                        ('max_gradient', ('opt', ('or', 'int', 'float'))),
                        ('max_diff', ('opt', ('or', 'int', 'float'))),
                        ('monotony', ('opt', ('enum', 'Monotony'))),
                        ('lower_limit_type', ('enum', 'IntervalType')),
                        ('upper_limit_type', ('enum', 'IntervalType'))],
 'PhysicalConstraint': [('lower_limit', ('opt', ('or', 'int', 'float'))),
                        ('upper_limit', ('opt', ('or', 'int', 'float'))),
                        ('scale_constr', ('opt', ('list', ('obj', 'ScaleConstraint')))),
                        ('max_gradient', ('opt', ('or', 'int', 'float'))),
                        ('max_diff', ('opt', ('or', 'int', 'float'))),
                        ('monotony', ('opt', ('enum', 'Monotony'))),
                        ('unit_ref', ('opt', ('ref', 'UnitRef'))),
                        ('lower_limit_type', ('enum', 'IntervalType')),
                        ('upper_limit_type', ('enum', 'IntervalType'))],
 'DataConstraintRule': [('internal', ('opt', ('obj', 'InternalConstraint'))),
                        ('physical', ('opt', ('obj', 'PhysicalConstraint'))),
                        ('level', ('opt', 'int'))],
 'DataConstraint': [('name', 'str'),
                    ('rules', ('opt', ('list', ('obj', 'DataConstraintRule')))),
                    ('desc', ('opt', ('obj', 'MultiLanguageOverviewParagraph'))),
                    ('category', ('opt', 'str')),
                    ('uuid', ('opt', 'str')), ('introduction', ('opt', ('obj', 'DocumentationBlock'))), ('annotations', ('opt', ('list', ('obj', 'Annotation')))),
                    ('long_name', ('opt', ('obj', 'MultilanguageLongName')))],
 'Unit': [('name', 'str'),
          ('display_name', ('opt', ('obj', 'SingleLanguageUnitNames'))),
          ('factor', ('opt', 'float')),
          ('offset', ('opt', 'float')),
          ('physical_dimension_ref', ('opt', ('ref', 'PhysicalDimensionRef'))),
          ('desc', ('opt', ('obj', 'MultiLanguageOverviewParagraph'))),
          ('category', ('opt', 'str')),
          ('uuid', ('opt', 'str')), ('introduction', ('opt', ('obj', 'DocumentationBlock'))), ('annotations', ('opt', ('list', ('obj', 'Annotation')))),
          ('long_name', ('opt', ('obj', 'MultilanguageLongName')))],
 'BaseType': [('name', 'str'),
              ('desc', ('opt', ('obj', 'MultiLanguageOverviewParagraph'))),
              ('category', ('opt', 'str')),
              ('uuid', ('opt', 'str')), ('introduction', ('opt', ('obj', 'DocumentationBlock'))), ('annotations', ('opt', ('list', ('obj', 'Annotation')))),
              ('long_name', ('opt', ('obj', 'MultilanguageLongName')))],
 'SwBaseType': [('name', 'str'),
                ('size', ('opt', 'nat')),
                ('max_size', ('opt', 'nat')),
                ('encoding', ('opt', 'str')),
                ('alignment', ('opt', 'nat')),
                ('byte_order', ('opt', ('enum', 'ByteOrder'))),
                ('native_declaration', ('opt', 'str')),
                ('desc', ('opt', ('obj', 'MultiLanguageOverviewParagraph'))),
                ('category', ('opt', 'str')),
                ('uuid', ('opt', 'str')), ('introduction', ('opt', ('obj', 'DocumentationBlock'))), ('annotations', ('opt', ('list', ('obj', 'Annotation')))),
                ('long_name', ('opt', ('obj', 'MultilanguageLongName')))],
 'SwBitRepresentation': [('position', ('opt', 'int')), ('num_bits', ('opt', 'int'))],
 'SwTextProps': [('array_size_semantics', ('opt', ('enum', 'ArraySizeSemantics'))),
                 ('max_text_size', ('opt', 'int')),
                 ('base_type_ref', ('opt', ('ref', 'SwBaseTypeRef'))),
                 ('fill_char', ('opt', 'int'))],
 'SwPointerTargetProps': [('target_category', ('opt', 'str')),
                          ('sw_data_def_props', ('opt', ('obj', 'SwDataDefProps'))),
                          ('function_ptr_signature_ref', ('opt', ('ref', 'FunctionPtrSignatureRef')))],
 'SwDataDefPropsConditional': [('display_presentation', ('opt', ('enum', 'DisplayPresentation'))),
                               ('step_size', ('opt', 'float')),
                               ('annotations', ('opt', ('list', ('obj', 'Annotation')))),
                               ('sw_addr_method_ref', ('opt', ('ref', 'SwAddrMethodRef'))),
                               ('base_type_ref', ('opt', ('ref', 'SwBaseTypeRef'))),
                               ('compu_method_ref', ('opt', ('ref', 'CompuMethodRef'))),
                               ('data_constraint_ref', ('opt', ('ref', 'DataConstraintRef'))),
                               ('impl_data_type_ref', ('opt', ('ref', 'ImplementationDataTypeRef'))),
                               ('unit_ref', ('opt', ('ref', 'UnitRef'))),
                               ('alignment', ('opt', ('or', 'int', ('const', 'UNKNOWN'), ('const', 'UNSPECIFIED'), ('const', 'BOOLEAN'), ('const', 'PTR')))),
                               ('bit_representation', ('opt', ('obj', 'SwBitRepresentation'))),
                               ('calibration_access', ('opt', ('enum', 'SwCalibrationAccess'))),
                               ('text_props', ('opt', ('obj', 'SwTextProps'))),
                               ('display_format', ('opt', 'str')),
                               ('impl_policy', ('opt', ('enum', 'SwImplPolicy'))),
                               ('additional_native_type_qualifier', ('opt', 'str')),
                               ('intended_resolution', ('opt', ('or', 'int', 'float'))),
                               ('interpolation_method', ('opt', 'str')),
                               ('is_virtual', ('opt', 'bool')),
                               ('ptr_target_props', ('opt', ('obj', 'SwPointerTargetProps')))],
 'SwDataDefProps': [('variants', ('opt', ('list', ('obj', 'SwDataDefPropsConditional'))))],
 'AutosarDataType': [('name', 'str'),
                     ('sw_data_def_props', ('opt', ('obj', 'SwDataDefProps'))),
                     ('desc', ('opt', ('obj', 'MultiLanguageOverviewParagraph'))),
                     ('category', ('opt', 'str')),
                     ('uuid', ('opt', 'str')), ('introduction', ('opt', ('obj', 'DocumentationBlock'))), ('annotations', ('opt', ('list', ('obj', 'Annotation')))),
                     ('long_name', ('opt', ('obj', 'MultilanguageLongName')))],
 'ImplementationProps': [('name', 'str'), ('symbol', ('opt', 'str'))],
 'SymbolProps': [('name', 'str'), ('symbol', ('opt', 'str'))],
 'ImplementationDataTypeElement': [('name', 'str'),
                                   ('sw_data_def_props', ('opt', ('obj', 'SwDataDefProps'))),
                                   ('array_size', ('opt', 'nat')),
                                   ('array_impl_policy', ('opt', ('enum', 'ArrayImplPolicy'))),
                                   ('array_size_handling', ('opt', ('enum', 'ArraySizeHandling'))),
                                   ('array_size_semantics', ('opt', ('enum', 'ArraySizeSemantics'))),
                                   ('sub_elements', ('opt', ('list', ('obj', 'ImplementationDataTypeElement')))),
                                   ('is_optional', ('opt', 'bool')),
                                   ('desc', ('opt', ('obj', 'MultiLanguageOverviewParagraph'))),
                                   ('category', ('opt', 'str')),
                                   ('uuid', ('opt', 'str')), ('introduction', ('opt', ('obj', 'DocumentationBlock'))), ('annotations', ('opt', ('list', ('obj', 'Annotation')))),
                                   ('long_name', ('opt', ('obj', 'MultilanguageLongName')))],
 'ImplementationDataType': [('name', 'str'),
                            ('dynamic_array_size_profile', ('opt', 'str')),
                            ('is_struct_with_optional_element', ('opt', 'bool')),
                            ('sub_elements', ('opt', ('list', ('obj', 'ImplementationDataTypeElement')))),
                            ('symbol_props', ('opt', ('obj', 'SymbolProps'))),
                            ('type_emitter', ('opt', 'str')),
                            ('sw_data_def_props', ('opt', ('obj', 'SwDataDefProps'))),
                            ('desc', ('opt', ('obj', 'MultiLanguageOverviewParagraph'))),
                            ('category', ('opt', 'str')),
                            ('uuid', ('opt', 'str')), ('introduction', ('opt', ('obj', 'DocumentationBlock'))), ('annotations', ('opt', ('list', ('obj', 'Annotation')))),
                            ('long_name', ('opt', ('obj', 'MultilanguageLongName')))],
 'DataPrototype': [('name', 'str'),
                   ('sw_data_def_props', ('opt', ('obj', 'SwDataDefProps'))),
                   ('desc', ('opt', ('obj', 'MultiLanguageOverviewParagraph'))),
                   ('category', ('opt', 'str')),
                   ('uuid', ('opt', 'str')), ('introduction', ('opt', ('obj', 'DocumentationBlock'))), ('annotations', ('opt', ('list', ('obj', 'Annotation')))),
                   ('long_name', ('opt', ('obj', 'MultilanguageLongName')))],
 'AutosarDataPrototype': [('name', 'str'),
                          ('type_ref', ('opt', ('ref', 'AutosarDataTypeRef'))),
                          ('sw_data_def_props', ('opt', ('obj', 'SwDataDefProps'))),
                          ('desc', ('opt', ('obj', 'MultiLanguageOverviewParagraph'))),
                          ('category', ('opt', 'str')),
                          ('uuid', ('opt', 'str')), ('introduction', ('opt', ('obj', 'DocumentationBlock'))), ('annotations', ('opt', ('list', ('obj', 'Annotation')))),
                          ('long_name', ('opt', ('obj', 'MultilanguageLongName')))],
 'VariableDataPrototype': [('name', 'str'),
                           ('init_value',
                            ('opt',
                             ('or',
                              ('obj', 'TextValueSpecification'),
                              ('obj', 'NumericalValueSpecification'),
                              ('obj', 'NotAvailableValueSpecification'),
                              ('obj', 'ArrayValueSpecification'),
                              ('obj', 'RecordValueSpecification'),
                              ('obj', 'ApplicationValueSpecification'),
                              ('obj', 'ConstantReference')))),
                           ('type_ref', ('opt', ('ref', 'AutosarDataTypeRef'))),
                           ('sw_data_def_props', ('opt', ('obj', 'SwDataDefProps'))),
                           ('desc', ('opt', ('obj', 'MultiLanguageOverviewParagraph'))),
                           ('category', ('opt', 'str')),
                           ('uuid', ('opt', 'str')), ('introduction', ('opt', ('obj', 'DocumentationBlock'))), ('annotations', ('opt', ('list', ('obj', 'Annotation')))),
                           ('long_name', ('opt', ('obj', 'MultilanguageLongName')))],
 'ParameterDataPrototype': [('name', 'str'),
                            ('init_value',
                             ('opt',
                              ('or',
                               ('obj', 'TextValueSpecification'),
                               ('obj', 'NumericalValueSpecification'),
                               ('obj', 'NotAvailableValueSpecification'),
                               ('obj', 'ArrayValueSpecification'),
                               ('obj', 'RecordValueSpecification'),
                               ('obj', 'ApplicationValueSpecification'),
                               ('obj', 'ConstantReference')))),
                            ('type_ref', ('opt', ('ref', 'AutosarDataTypeRef'))),
                            ('sw_data_def_props', ('opt', ('obj', 'SwDataDefProps'))),
                            ('desc', ('opt', ('obj', 'MultiLanguageOverviewParagraph'))),
                            ('category', ('opt', 'str')),
                            ('uuid', ('opt', 'str')), ('introduction', ('opt', ('obj', 'DocumentationBlock'))), ('annotations', ('opt', ('list', ('obj', 'Annotation')))),
                            ('long_name', ('opt', ('obj', 'MultilanguageLongName')))],
 'ArgumentDataPrototype': [('name', 'str'),
                           ('direction', ('opt', ('enum', 'ArgumentDirection'))),
                           ('server_arg_impl_policy', ('opt', ('enum', 'ServerArgImplPolicy'))),
                           ('type_ref', ('opt', ('ref', 'AutosarDataTypeRef'))),
                           ('sw_data_def_props', ('opt', ('obj', 'SwDataDefProps'))),
                           ('desc', ('opt', ('obj', 'MultiLanguageOverviewParagraph'))),
                           ('category', ('opt', 'str')),
                           ('uuid', ('opt', 'str')), ('introduction', ('opt', ('obj', 'DocumentationBlock'))), ('annotations', ('opt', ('list', ('obj', 'Annotation')))),
                           ('long_name', ('opt', ('obj', 'MultilanguageLongName')))],
 'ApplicationDataType': [('name', 'str'),
                         ('sw_data_def_props', ('opt', ('obj', 'SwDataDefProps'))),
                         ('desc', ('opt', ('obj', 'MultiLanguageOverviewParagraph'))),
                         ('category', ('opt', 'str')),
                         ('uuid', ('opt', 'str')), ('introduction', ('opt', ('obj', 'DocumentationBlock'))), ('annotations', ('opt', ('list', ('obj', 'Annotation')))),
                         ('long_name', ('opt', ('obj', 'MultilanguageLongName')))],
 'ApplicationCompositeDataType': [('name', 'str'),
                                  ('sw_data_def_props', ('opt', ('obj', 'SwDataDefProps'))),
                                  ('desc', ('opt', ('obj', 'MultiLanguageOverviewParagraph'))),
                                  ('category', ('opt', 'str')),
                                  ('uuid', ('opt', 'str')), ('introduction', ('opt', ('obj', 'DocumentationBlock'))), ('annotations', ('opt', ('list', ('obj', 'Annotation')))),
                                  ('long_name', ('opt', ('obj', 'MultilanguageLongName')))],
 'ApplicationPrimitiveDataType': [('name', 'str'),
                                  ('sw_data_def_props', ('opt', ('obj', 'SwDataDefProps'))),
                                  ('desc', ('opt', ('obj', 'MultiLanguageOverviewParagraph'))),
                                  ('category', ('opt', 'str')),
                                  ('uuid', ('opt', 'str')), ('introduction', ('opt', ('obj', 'DocumentationBlock'))), ('annotations', ('opt', ('list', ('obj', 'Annotation')))),
                                  ('long_name', ('opt', ('obj', 'MultilanguageLongName')))],
 'ApplicationCompositeElementDataPrototype': [('name', 'str'),
                                              ('type_ref', ('opt', ('ref', 'ApplicationDataTypeRef'))),
                                              ('sw_data_def_props', ('opt', ('obj', 'SwDataDefProps'))),
                                              ('desc', ('opt', ('obj', 'MultiLanguageOverviewParagraph'))),
                                              ('category', ('opt', 'str')),
                                              ('uuid', ('opt', 'str')), ('introduction', ('opt', ('obj', 'DocumentationBlock'))), ('annotations', ('opt', ('list', ('obj', 'Annotation')))),
                                              ('long_name', ('opt', ('obj', 'MultilanguageLongName')))],
 'ApplicationArrayElement': [('name', 'str'),
                             ('max_number_of_elements', ('opt', 'nat')),
                             ('array_size_handling', ('opt', ('enum', 'ArraySizeHandling'))),
                             ('array_size_semantics', ('opt', ('enum', 'ArraySizeSemantics'))),
                             ('index_data_type_ref', ('opt', ('ref', 'IndexDataTypeRef'))),
                             ('type_ref', ('opt', ('ref', 'ApplicationDataTypeRef'))),
                             ('sw_data_def_props', ('opt', ('obj', 'SwDataDefProps'))),
                             ('desc', ('opt', ('obj', 'MultiLanguageOverviewParagraph'))),
                             ('category', ('opt', 'str')),
                             ('uuid', ('opt', 'str')), ('introduction', ('opt', ('obj', 'DocumentationBlock'))), ('annotations', ('opt', ('list', ('obj', 'Annotation')))),
                             ('long_name', ('opt', ('obj', 'MultilanguageLongName')))],
 'ApplicationArrayDataType': [('name', 'str'),
                              ('dynamic_array_size_profile', ('opt', 'str')),
                              ('element', ('opt', ('obj', 'ApplicationArrayElement'))),
                              ('sw_data_def_props', ('opt', ('obj', 'SwDataDefProps'))),
                              ('desc', ('opt', ('obj', 'MultiLanguageOverviewParagraph'))),
                              ('category', ('opt', 'str')),
                              ('uuid', ('opt', 'str')), ('introduction', ('opt', ('obj', 'DocumentationBlock'))), ('annotations', ('opt', ('list', ('obj', 'Annotation')))),
                              ('long_name', ('opt', ('obj', 'MultilanguageLongName')))],
 'ApplicationRecordElement': [('name', 'str'),
                              ('is_optional', ('opt', 'bool')),
                              ('type_ref', ('opt', ('ref', 'ApplicationDataTypeRef'))),
                              ('sw_data_def_props', ('opt', ('obj', 'SwDataDefProps'))),
                              ('desc', ('opt', ('obj', 'MultiLanguageOverviewParagraph'))),
                              ('category', ('opt', 'str')),
                              ('uuid', ('opt', 'str')), ('introduction', ('opt', ('obj', 'DocumentationBlock'))), ('annotations', ('opt', ('list', ('obj', 'Annotation')))),
                              ('long_name', ('opt', ('obj', 'MultilanguageLongName')))],
 'ApplicationRecordDataType': [('name', 'str'),
                               ('elements', ('opt', ('list', ('obj', 'ApplicationRecordElement')))),
                               ('sw_data_def_props', ('opt', ('obj', 'SwDataDefProps'))),
                               ('desc', ('opt', ('obj', 'MultiLanguageOverviewParagraph'))),
                               ('category', ('opt', 'str')),
                               ('uuid', ('opt', 'str')), ('introduction', ('opt', ('obj', 'DocumentationBlock'))), ('annotations', ('opt', ('list', ('obj', 'Annotation')))),
                               ('long_name', ('opt', ('obj', 'MultilanguageLongName')))],
 'DataTypeMap': [('appl_data_type_ref', ('opt', ('ref', 'ApplicationDataTypeRef'))),
                 ('impl_data_type_ref', ('opt', ('ref', 'ImplementationDataTypeRef')))],
 'DataTypeMappingSet': [('name', 'str'),
                        ('data_type_maps', ('opt', ('list', ('obj', 'DataTypeMap')))),
                        ('desc', ('opt', ('obj', 'MultiLanguageOverviewParagraph'))),
                        ('category', ('opt', 'str')),
                        ('uuid', ('opt', 'str')), ('introduction', ('opt', ('obj', 'DocumentationBlock'))), ('annotations', ('opt', ('list', ('obj', 'Annotation')))),
                        ('long_name', ('opt', ('obj', 'MultilanguageLongName')))],
 'ValueList': [('values', ('opt', ('list', ('or', 'int', 'float', ('obj', 'NumericalValue')))))],
 'SwAddrMethod': [('name', 'str'),
                  ('desc', ('opt', ('obj', 'MultiLanguageOverviewParagraph'))),
                  ('category', ('opt', 'str')),
                  ('uuid', ('opt', 'str')), ('introduction', ('opt', ('obj', 'DocumentationBlock'))), ('annotations', ('opt', ('list', ('obj', 'Annotation')))),
                  ('long_name', ('opt', ('obj', 'MultilanguageLongName')))],
 'SwValues': [('values',
               ('opt', ('list', ('or', 'int', 'float', 'str', ('obj', 'NumericalValue'), ('obj', 'ValueGroup')))))],
 'ValueGroup': [('label', ('opt', ('obj', 'MultilanguageLongName'))),
                ('values', ('opt', ('list', ('or', 'int', 'float', 'str', ('obj', 'NumericalValue'), ('obj', 'ValueGroup')))))],
 'SwAxisCont': [('category', ('opt', ('enum', 'CalibrationAxisCategory'))),
                ('unit_ref', ('opt', ('ref', 'UnitRef'))),
                ('unit_display_name', ('opt', ('obj', 'SingleLanguageUnitNames'))),
                ('sw_axis_index', ('opt', ('or', 'int', 'word'))),
                ('sw_array_size', ('opt', ('obj', 'ValueList'))),
                ('sw_values_phys', ('opt', ('obj', 'SwValues')))],
 'SwValueCont': [('unit_ref', ('opt', ('ref', 'UnitRef'))),
                 ('unit_display_name', ('opt', ('obj', 'SingleLanguageUnitNames'))),
                 ('sw_array_size', ('opt', ('obj', 'ValueList'))),
                 ('sw_values_phys', ('opt', ('obj', 'SwValues')))],
 'ValueSpecification': [('label', ('opt', 'str'))],
 'TextValueSpecification': [('label', ('opt', 'str')), ('value', ('opt', 'str'))],
 'NumericalValueSpecification': [('label', ('opt', 'str')), ('value', ('opt', ('or', 'int', 'float')))],
 'NotAvailableValueSpecification': [('label', ('opt', 'str')),
                                    ('default_pattern', ('opt', 'int')),
                                    ('default_pattern_format', ('enum', 'ValueFormat'))],
 'ArrayValueSpecification': [('label', ('opt', 'str')),
                             ('elements',
                              ('opt',
                               ('list',
                                ('or',
                                 ('obj', 'TextValueSpecification'),
                                 ('obj', 'NumericalValueSpecification'),
                                 ('obj', 'NotAvailableValueSpecification'),
                                 ('obj', 'ArrayValueSpecification'),
                                 ('obj', 'RecordValueSpecification'),
                                 ('obj', 'ApplicationValueSpecification'),
                                 ('obj', 'ConstantReference')))))],
 'RecordValueSpecification': [('label', ('opt', 'str')),
                              ('fields',
                               ('opt',
                                ('list',
                                 ('or',
                                  ('obj', 'TextValueSpecification'),
                                  ('obj', 'NumericalValueSpecification'),
                                  ('obj', 'NotAvailableValueSpecification'),
                                  ('obj', 'ArrayValueSpecification'),
                                  ('obj', 'RecordValueSpecification'),
                                  ('obj', 'ApplicationValueSpecification'),
                                  ('obj', 'ConstantReference')))))],
 'ApplicationValueSpecification': [('label', ('opt', 'str')),
                                   ('category', ('opt', 'str')),
                                   ('sw_axis_conts', ('opt', ('list', ('obj', 'SwAxisCont')))),
                                   ('sw_value_cont', ('opt', ('obj', 'SwValueCont')))],
 'ConstantSpecification': [('name', 'str'),
                           ('value',
                            ('opt',
                             ('or',
                              ('obj', 'TextValueSpecification'),
                              ('obj', 'NumericalValueSpecification'),
                              ('obj', 'NotAvailableValueSpecification'),
                              ('obj', 'ArrayValueSpecification'),
                              ('obj', 'RecordValueSpecification'),
                              ('obj', 'ApplicationValueSpecification'),
                              ('obj', 'ConstantReference')))),
                           ('desc', ('opt', ('obj', 'MultiLanguageOverviewParagraph'))),
                           ('category', ('opt', 'str')),
                           ('uuid', ('opt', 'str')), ('introduction', ('opt', ('obj', 'DocumentationBlock'))), ('annotations', ('opt', ('list', ('obj', 'Annotation')))),
                           ('long_name', ('opt', ('obj', 'MultilanguageLongName')))],
 'ConstantReference': [('constant_ref', ('opt', ('ref', 'ConstantRef'))), ('label', ('opt', 'str'))],
 'Package': [('name', 'str'),
             ('desc', ('opt', ('obj', 'MultiLanguageOverviewParagraph'))),
             ('category', ('opt', 'str')),
             ('uuid', ('opt', 'str')), ('introduction', ('opt', ('obj', 'DocumentationBlock'))), ('annotations', ('opt', ('list', ('obj', 'Annotation')))),
             ('long_name', ('opt', ('obj', 'MultilanguageLongName')))],
 'BehaviorSettings': [],
 'PackageCollection': [('packages', ('opt', ('list', ('obj', 'Package')))),
                       ('behavior_settings', ('opt', ('obj', 'BehaviorSettings')))],
 'ModeDeclaration': [('name', 'str'),
                     ('value', ('opt', 'nat')),
                     ('desc', ('opt', ('obj', 'MultiLanguageOverviewParagraph'))),
                     ('category', ('opt', 'str')),
                     ('uuid', ('opt', 'str')), ('introduction', ('opt', ('obj', 'DocumentationBlock'))), ('annotations', ('opt', ('list', ('obj', 'Annotation')))),
                     ('long_name', ('opt', ('obj', 'MultilanguageLongName')))],
 'ModeErrorBehavior': [('default_mode_ref', ('opt', ('ref', 'ModeDeclarationRef'))),
                       ('error_reaction_policy', ('opt', ('enum', 'ModeErrorReactionPolicy')))],
 'ModeTransition': [('name', 'str'),
                    ('entered_mode_ref', ('opt', ('ref', 'ModeDeclarationRef'))),
                    ('exited_mode_ref', ('opt', ('ref', 'ModeDeclarationRef'))),
                    ('desc', ('opt', ('obj', 'MultiLanguageOverviewParagraph'))),
                    ('category', ('opt', 'str')),
                    ('uuid', ('opt', 'str')), ('introduction', ('opt', ('obj', 'DocumentationBlock'))), ('annotations', ('opt', ('list', ('obj', 'Annotation')))),
                    ('long_name', ('opt', ('obj', 'MultilanguageLongName')))],
 'ModeDeclarationGroup': [('name', 'str'),
                          ('mode_declarations', ('opt', ('list', ('obj', 'ModeDeclaration')))),
                          ('initial_mode_ref', ('opt', ('ref', 'ModeDeclarationRef'))),
                          ('mode_manager_error_behavior', ('opt', ('obj', 'ModeErrorBehavior'))),
                          ('mode_transitions', ('opt', ('list', ('obj', 'ModeTransition')))),
                          ('mode_user_error_behavior', ('opt', ('obj', 'ModeErrorBehavior'))),
                          ('on_transition_value', ('opt', 'nat')),
                          ('desc', ('opt', ('obj', 'MultiLanguageOverviewParagraph'))),
                          ('category', ('opt', 'str')),
                          ('uuid', ('opt', 'str')), ('introduction', ('opt', ('obj', 'DocumentationBlock'))), ('annotations', ('opt', ('list', ('obj', 'Annotation')))),
                          ('long_name', ('opt', ('obj', 'MultilanguageLongName')))],
 'ModeDeclarationGroupPrototype': [('name', 'str'),
                                   ('type_ref', ('opt', ('ref', 'ModeDeclarationGroupRef'))),
                                   ('calibration_access', ('opt', ('enum', 'SwCalibrationAccess'))),
                                   ('desc', ('opt', ('obj', 'MultiLanguageOverviewParagraph'))),
                                   ('category', ('opt', 'str')),
                                   ('uuid', ('opt', 'str')), ('introduction', ('opt', ('obj', 'DocumentationBlock'))), ('annotations', ('opt', ('list', ('obj', 'Annotation')))),
                                   ('long_name', ('opt', ('obj', 'MultilanguageLongName')))],
 'ModeRequestTypeMap': [('implementation_data_type', ('opt', ('ref', 'ImplementationDataTypeRef'))),
                        ('mode_group', ('opt', ('ref', 'ModeDeclarationGroupRef')))],
 'PortInterface': [('name', 'str'),
                   ('is_service', ('opt', 'bool')),
                   ('service_kind', ('opt', ('enum', 'ServiceKind'))),
                   ('desc', ('opt', ('obj', 'MultiLanguageOverviewParagraph'))),
                   ('category', ('opt', 'str')),
                   ('uuid', ('opt', 'str')), ('introduction', ('opt', ('obj', 'DocumentationBlock'))), ('annotations', ('opt', ('list', ('obj', 'Annotation')))),
                   ('long_name', ('opt', ('obj', 'MultilanguageLongName')))],
 'DataInterface': [('name', 'str'),
                   ('is_service', ('opt', 'bool')),
                   ('service_kind', ('opt', ('enum', 'ServiceKind'))),
                   ('desc', ('opt', ('obj', 'MultiLanguageOverviewParagraph'))),
                   ('category', ('opt', 'str')),
                   ('uuid', ('opt', 'str')), ('introduction', ('opt', ('obj', 'DocumentationBlock'))), ('annotations', ('opt', ('list', ('obj', 'Annotation')))),
                   ('long_name', ('opt', ('obj', 'MultilanguageLongName')))],
 'InvalidationPolicy': [('data_element_ref', ('opt', ('ref', 'VariableDataPrototypeRef'))),
                        ('handle_invalid', ('opt', ('enum', 'HandleInvalid')))],
 'SenderReceiverInterface': [('name', 'str'),
                             ('data_elements', ('opt', ('list', ('obj', 'VariableDataPrototype')))),
                             ('invalidation_policies', ('opt', ('list', ('obj', 'InvalidationPolicy')))),
                             ('is_service', ('opt', 'bool')),
                             ('service_kind', ('opt', ('enum', 'ServiceKind'))),
                             ('desc', ('opt', ('obj', 'MultiLanguageOverviewParagraph'))),
                             ('category', ('opt', 'str')),
                             ('uuid', ('opt', 'str')), ('introduction', ('opt', ('obj', 'DocumentationBlock'))), ('annotations', ('opt', ('list', ('obj', 'Annotation')))),
                             ('long_name', ('opt', ('obj', 'MultilanguageLongName')))],
 'NvDataInterface': [('name', 'str'),
                     ('data_elements', ('opt', ('list', ('obj', 'VariableDataPrototype')))),
                     ('is_service', ('opt', 'bool')),
                     ('service_kind', ('opt', ('enum', 'ServiceKind'))),
                     ('desc', ('opt', ('obj', 'MultiLanguageOverviewParagraph'))),
                     ('category', ('opt', 'str')),
                     ('uuid', ('opt', 'str')), ('introduction', ('opt', ('obj', 'DocumentationBlock'))), ('annotations', ('opt', ('list', ('obj', 'Annotation')))),
                     ('long_name', ('opt', ('obj', 'MultilanguageLongName')))],
 'ParameterInterface': [('name', 'str'),
                        ('parameters', ('opt', ('list', ('obj', 'ParameterDataPrototype')))),
                        ('is_service', ('opt', 'bool')),
                        ('service_kind', ('opt', ('enum', 'ServiceKind'))),
                        ('desc', ('opt', ('obj', 'MultiLanguageOverviewParagraph'))),
                        ('category', ('opt', 'str')),
                        ('uuid', ('opt', 'str')), ('introduction', ('opt', ('obj', 'DocumentationBlock'))), ('annotations', ('opt', ('list', ('obj', 'Annotation')))),
                        ('long_name', ('opt', ('obj', 'MultilanguageLongName')))],
 'ApplicationError': [('name', 'str'),
                      ('error_code', ('opt', 'int')),
                      ('desc', ('opt', ('obj', 'MultiLanguageOverviewParagraph'))),
                      ('category', ('opt', 'str')),
                      ('uuid', ('opt', 'str')), ('introduction', ('opt', ('obj', 'DocumentationBlock'))), ('annotations', ('opt', ('list', ('obj', 'Annotation')))),
                      ('long_name', ('opt', ('obj', 'MultilanguageLongName')))],
 'ClientServerOperation': [('name', 'str'),
                           ('arguments', ('opt', ('list', ('obj', 'ArgumentDataPrototype')))),
                           ('diag_arg_integrity', ('opt', 'bool')),
                           ('fire_and_forget', ('opt', 'bool')),
                           ('possible_error_refs', ('opt', ('list', ('ref', 'ApplicationErrorRef')))),
                           ('desc', ('opt', ('obj', 'MultiLanguageOverviewParagraph'))),
                           ('category', ('opt', 'str')),
                           ('uuid', ('opt', 'str')), ('introduction', ('opt', ('obj', 'DocumentationBlock'))), ('annotations', ('opt', ('list', ('obj', 'Annotation')))),
                           ('long_name', ('opt', ('obj', 'MultilanguageLongName')))],
 'ClientServerInterface': [('name', 'str'),
                           ('operations', ('opt', ('list', ('obj', 'ClientServerOperation')))),
                           ('possible_errors', ('opt', ('list', ('obj', 'ApplicationError')))),
                           ('is_service', ('opt', 'bool')),
                           ('service_kind', ('opt', ('enum', 'ServiceKind'))),
                           ('desc', ('opt', ('obj', 'MultiLanguageOverviewParagraph'))),
                           ('category', ('opt', 'str')),
                           ('uuid', ('opt', 'str')), ('introduction', ('opt', ('obj', 'DocumentationBlock'))), ('annotations', ('opt', ('list', ('obj', 'Annotation')))),
                           ('long_name', ('opt', ('obj', 'MultilanguageLongName')))],
 'ModeSwitchInterface': [('name', 'str'),
                         ('mode_group', ('opt', ('obj', 'ModeDeclarationGroupPrototype'))),
                         ('is_service', ('opt', 'bool')),
                         ('service_kind', ('opt', ('enum', 'ServiceKind'))),
                         ('desc', ('opt', ('obj', 'MultiLanguageOverviewParagraph'))),
                         ('category', ('opt', 'str')),
                         ('uuid', ('opt', 'str')), ('introduction', ('opt', ('obj', 'DocumentationBlock'))), ('annotations', ('opt', ('list', ('obj', 'Annotation')))),
                         ('long_name', ('opt', ('obj', 'MultilanguageLongName')))],
 'E2EProfileCompatibilityProps': [('name', 'str'),
                                  ('transit_to_invalid_extended', ('opt', 'bool')),
                                  ('desc', ('opt', ('obj', 'MultiLanguageOverviewParagraph'))),
                                  ('category', ('opt', 'str')),
                                  ('uuid', ('opt', 'str')), ('introduction', ('opt', ('obj', 'DocumentationBlock'))), ('annotations', ('opt', ('list', ('obj', 'Annotation')))),
                                  ('long_name', ('opt', ('obj', 'MultilanguageLongName')))],
 'EndToEndTransformationComSpecProps': [('clear_from_valid_to_invalid', ('opt', 'bool')),
                                        ('disable_e2e_check', ('opt', 'bool')),
                                        ('disable_e2e_state_machine', ('opt', 'bool')),
                                        ('e2e_profile_compatibility_props_ref',
                                         ('opt', ('ref', 'E2EProfileCompatibilityPropsRef'))),
                                        ('max_delta_counter', ('opt', 'nat')),
                                        ('max_error_state_init', ('opt', 'nat')),
                                        ('max_error_state_invalid', ('opt', 'nat')),
                                        ('max_error_state_valid', ('opt', 'nat')),
                                        ('max_no_new_repeated_data', ('opt', 'nat')),
                                        ('min_ok_state_init', ('opt', 'nat')),
                                        ('min_ok_state_invalid', ('opt', 'nat')),
                                        ('min_ok_state_valid', ('opt', 'nat')),
                                        ('sync_counter_init', ('opt', 'nat')),
                                        ('window_size', ('opt', 'nat')),
                                        ('window_size_init', ('opt', 'nat')),
                                        ('window_size_invalid', ('opt', 'nat')),
                                        ('window_size_valid', ('opt', 'nat')),
                                        ('desc', ('opt', ('obj', 'MultiLanguageOverviewParagraph'))),
                                        ('category', ('opt', 'str')),
                                        ('introduction', ('opt', ('obj', 'DocumentationBlock')))],
 'ModeSwitchedAckRequest': [('timeout', ('opt', 'float'))],
 'TransmissionAcknowledgementRequest': [('timeout', ('opt', ('or', 'float', 'int')))],
 'TransmissionComSpecProps': [('data_update_period', ('opt', ('or', 'float', 'int'))),
                              ('minimum_send_interval', ('opt', ('or', 'float', 'int'))),
                              ('transmission_mode', ('opt', ('enum', 'TransmissionMode')))],
 'ProvidePortComSpec': [],
 'SenderComSpec': [('data_element_ref', ('opt', ('ref', 'AutosarDataPrototypeRef'))),
                   ('handle_out_of_range', ('opt', ('enum', 'HandleOutOfRange'))),
                   ('network_representation', ('opt', ('obj', 'SwDataDefProps'))),
                   ('transmission_acknowledge', ('opt', ('obj', 'TransmissionAcknowledgementRequest'))),
                   ('tranmsission_props', ('opt', ('obj', 'TransmissionComSpecProps'))),
                   ('uses_end_to_end_protection', ('opt', 'bool'))],
 'ModeSwitchSenderComSpec': [('mode_group_ref', ('opt', ('ref', 'ModeDeclarationGroupPrototypeRef'))),
                             ('enhanced_mode_api', ('opt', 'bool')),
                             ('mode_switched_ack', ('opt', ('obj', 'ModeSwitchedAckRequest'))),
                             ('queue_length', ('opt', 'nat'))],
 'QueuedSenderComSpec': [('data_element_ref', ('opt', ('ref', 'AutosarDataPrototypeRef'))),
                         ('handle_out_of_range', ('opt', ('enum', 'HandleOutOfRange'))),
                         ('network_representation', ('opt', ('obj', 'SwDataDefProps'))),
                         ('transmission_acknowledge', ('opt', ('obj', 'TransmissionAcknowledgementRequest'))),
                         ('tranmsission_props', ('opt', ('obj', 'TransmissionComSpecProps'))),
                         ('uses_end_to_end_protection', ('opt', 'bool'))],
 'NonqueuedSenderComSpec': [('init_value',
                             ('opt',
                              ('or',
                               ('obj', 'TextValueSpecification'),
                               ('obj', 'NumericalValueSpecification'),
                               ('obj', 'NotAvailableValueSpecification'),
                               ('obj', 'ArrayValueSpecification'),
                               ('obj', 'RecordValueSpecification'),
                               ('obj', 'ApplicationValueSpecification'),
                               ('obj', 'ConstantReference')))),
                            ('data_filter', ('opt', ('obj', 'DataFilter'))),
                            ('data_element_ref', ('opt', ('ref', 'AutosarDataPrototypeRef'))),
                            ('handle_out_of_range', ('opt', ('enum', 'HandleOutOfRange'))),
                            ('network_representation', ('opt', ('obj', 'SwDataDefProps'))),
                            ('transmission_acknowledge', ('opt', ('obj', 'TransmissionAcknowledgementRequest'))),
                            ('tranmsission_props', ('opt', ('obj', 'TransmissionComSpecProps'))),
                            ('uses_end_to_end_protection', ('opt', 'bool'))],
 'NvProvideComSpec': [('variable_ref', ('opt', ('ref', 'VariableDataPrototypeRef'))),
                      ('ram_block_init_value',
                       ('opt',
                        ('or',
                         ('obj', 'TextValueSpecification'),
                         ('obj', 'NumericalValueSpecification'),
                         ('obj', 'NotAvailableValueSpecification'),
                         ('obj', 'ArrayValueSpecification'),
                         ('obj', 'RecordValueSpecification'),
                         ('obj', 'ApplicationValueSpecification'),
                         ('obj', 'ConstantReference')))),
                      ('rom_block_init_value',
                       ('opt',
                        ('or',
                         ('obj', 'TextValueSpecification'),
                         ('obj', 'NumericalValueSpecification'),
                         ('obj', 'NotAvailableValueSpecification'),
                         ('obj', 'ArrayValueSpecification'),
                         ('obj', 'RecordValueSpecification'),
                         ('obj', 'ApplicationValueSpecification'),
                         ('obj', 'ConstantReference'))))],
 'ParameterProvideComSpec': [('parameter_ref', ('opt', ('ref', 'ParameterDataPrototypeRef'))),
                             ('init_value',
                              ('opt',
                               ('or',
                                ('obj', 'TextValueSpecification'),
                                ('obj', 'NumericalValueSpecification'),
                                ('obj', 'NotAvailableValueSpecification'),
                                ('obj', 'ArrayValueSpecification'),
                                ('obj', 'RecordValueSpecification'),
                                ('obj', 'ApplicationValueSpecification'),
                                ('obj', 'ConstantReference'))))],
 'ServerComSpec': [('operation_ref', ('opt', ('ref', 'ClientServerOperationRef'))),
                   ('queue_length', ('opt', 'nat')),
                   ('transformation_com_spec_props', ('opt', ('list', ('obj', 'EndToEndTransformationComSpecProps'))))],
 'ReceptionComSpecProps': [('data_update_period', ('opt', 'float')), ('timeout', ('opt', 'float'))],
 'RequirePortComSpec': [],
 'ReceiverComSpec': [('data_element_ref', ('opt', ('ref', 'AutosarDataPrototypeRef'))),
                     ('handle_out_of_range', ('opt', ('enum', 'HandleOutOfRange'))),
                     ('handle_out_of_range_status', ('opt', ('enum', 'HandleOutOfRangeStatus'))),
                     ('max_delta_counter_init', ('opt', 'nat')),
                     ('max_no_new_repeated_data', ('opt', 'nat')),
                     ('network_representation', ('opt', ('obj', 'SwDataDefProps'))),
                     ('reception_props', ('opt', ('obj', 'ReceptionComSpecProps'))),
                     ('replace_with', ('opt', ('obj', 'VariableAccess'))),
                     ('sync_counter_init', ('opt', 'nat')),
                     ('transformation_com_spec_props',
                      ('opt', ('list', ('obj', 'EndToEndTransformationComSpecProps')))),
                     ('uses_end_to_end_protection', ('opt', 'bool'))],
 'QueuedReceiverComSpec': [('queue_length', ('opt', 'nat')),
                           ('data_element_ref', ('opt', ('ref', 'AutosarDataPrototypeRef'))),
                           ('handle_out_of_range', ('opt', ('enum', 'HandleOutOfRange'))),
                           ('handle_out_of_range_status', ('opt', ('enum', 'HandleOutOfRangeStatus'))),
                           ('max_delta_counter_init', ('opt', 'nat')),
                           ('max_no_new_repeated_data', ('opt', 'nat')),
                           ('network_representation', ('opt', ('obj', 'SwDataDefProps'))),
                           ('reception_props', ('opt', ('obj', 'ReceptionComSpecProps'))),
                           ('replace_with', ('opt', ('obj', 'VariableAccess'))),
                           ('sync_counter_init', ('opt', 'nat')),
                           ('transformation_com_spec_props',
                            ('opt', ('list', ('obj', 'EndToEndTransformationComSpecProps')))),
                           ('uses_end_to_end_protection', ('opt', 'bool'))],
 'NonqueuedReceiverComSpec': [('alive_timeout', ('opt', ('or', 'int', 'float'))),
                              ('enable_update', ('opt', 'bool')),
                              ('data_filter', ('opt', ('obj', 'DataFilter'))),
                              ('handle_data_status', ('opt', 'bool')),
                              ('handle_never_received', ('opt', 'bool')),
                              ('handle_timeout_type', ('opt', ('enum', 'HandleTimeout'))),
                              ('init_value',
                               ('opt',
                                ('or',
                                 ('obj', 'TextValueSpecification'),
                                 ('obj', 'NumericalValueSpecification'),
                                 ('obj', 'NotAvailableValueSpecification'),
                                 ('obj', 'ArrayValueSpecification'),
                                 ('obj', 'RecordValueSpecification'),
                                 ('obj', 'ApplicationValueSpecification'),
                                 ('obj', 'ConstantReference')))),
                              ('timeout_substitution_value',
                               ('opt',
                                ('or',
                                 ('obj', 'TextValueSpecification'),
                                 ('obj', 'NumericalValueSpecification'),
                                 ('obj', 'NotAvailableValueSpecification'),
                                 ('obj', 'ArrayValueSpecification'),
                                 ('obj', 'RecordValueSpecification'),
                                 ('obj', 'ApplicationValueSpecification'),
                                 ('obj', 'ConstantReference')))),
                              ('data_element_ref', ('opt', ('ref', 'AutosarDataPrototypeRef'))),
                              ('handle_out_of_range', ('opt', ('enum', 'HandleOutOfRange'))),
                              ('handle_out_of_range_status', ('opt', ('enum', 'HandleOutOfRangeStatus'))),
                              ('max_delta_counter_init', ('opt', 'nat')),
                              ('max_no_new_repeated_data', ('opt', 'nat')),
                              ('network_representation', ('opt', ('obj', 'SwDataDefProps'))),
                              ('reception_props', ('opt', ('obj', 'ReceptionComSpecProps'))),
                              ('replace_with', ('opt', ('obj', 'VariableAccess'))),
                              ('sync_counter_init', ('opt', 'nat')),
                              ('transformation_com_spec_props',
                               ('opt', ('list', ('obj', 'EndToEndTransformationComSpecProps')))),
                              ('uses_end_to_end_protection', ('opt', 'bool'))],
 'NvRequireComSpec': [('variable_ref', ('opt', ('ref', 'VariableDataPrototypeRef'))),
                      ('init_value',
                       ('opt',
                        ('or',
                         ('obj', 'TextValueSpecification'),
                         ('obj', 'NumericalValueSpecification'),
                         ('obj', 'NotAvailableValueSpecification'),
                         ('obj', 'ArrayValueSpecification'),
                         ('obj', 'RecordValueSpecification'),
                         ('obj', 'ApplicationValueSpecification'),
                         ('obj', 'ConstantReference'))))],
 'ParameterRequireComSpec': [('parameter_ref', ('opt', ('ref', 'ParameterDataPrototypeRef'))),
                             ('init_value',
                              ('opt',
                               ('or',
                                ('obj', 'TextValueSpecification'),
                                ('obj', 'NumericalValueSpecification'),
                                ('obj', 'NotAvailableValueSpecification'),
                                ('obj', 'ArrayValueSpecification'),
                                ('obj', 'RecordValueSpecification'),
                                ('obj', 'ApplicationValueSpecification'),
                                ('obj', 'ConstantReference'))))],
 'ModeSwitchReceiverComSpec': [('mode_group_ref', ('opt', ('ref', 'ModeDeclarationGroupPrototypeRef'))),
                               ('enhanced_mode_api', ('opt', 'bool')),
                               ('supports_async', ('opt', 'bool'))],
 'ClientComSpec': [('operation_ref', ('opt', ('ref', 'ClientServerOperationRef'))),
                   ('e2e_call_respone_timeout', ('opt', ('or', 'float', 'int'))),
                   ('transformation_com_spec_props', ('opt', ('list', ('obj', 'EndToEndTransformationComSpecProps'))))],
 'PortPrototype': [('name', 'str'),
                   ('desc', ('opt', ('obj', 'MultiLanguageOverviewParagraph'))),
                   ('category', ('opt', 'str')),
                   ('uuid', ('opt', 'str')), ('introduction', ('opt', ('obj', 'DocumentationBlock'))), ('annotations', ('opt', ('list', ('obj', 'Annotation')))),
                   ('long_name', ('opt', ('obj', 'MultilanguageLongName')))],
 'ProvidePortPrototype': [('name', 'str'),
                          ('port_interface_ref', ('opt', ('ref', 'PortInterfaceRef'))),
                          ('com_spec',
                           ('opt',
                            ('list',
                             ('or',
                              ('obj', 'ModeSwitchSenderComSpec'),
                              ('obj', 'NonqueuedSenderComSpec'),
                              ('obj', 'NvProvideComSpec'),
                              ('obj', 'ParameterProvideComSpec'),
                              ('obj', 'QueuedSenderComSpec'),
                              ('obj', 'ServerComSpec'))))),
                          ('desc', ('opt', ('obj', 'MultiLanguageOverviewParagraph'))),
                          ('category', ('opt', 'str')),
                          ('uuid', ('opt', 'str')), ('introduction', ('opt', ('obj', 'DocumentationBlock'))), ('annotations', ('opt', ('list', ('obj', 'Annotation')))),
                          ('long_name', ('opt', ('obj', 'MultilanguageLongName')))],
 'RequirePortPrototype': [('name', 'str'),
                          ('port_interface_ref', ('opt', ('ref', 'PortInterfaceRef'))),
                          ('com_spec',
                           ('opt',
                            ('list',
                             ('or',
                              ('obj', 'ClientComSpec'),
                              ('obj', 'ModeSwitchReceiverComSpec'),
                              ('obj', 'NonqueuedReceiverComSpec'),
                              ('obj', 'NvRequireComSpec'),
                              ('obj', 'ParameterRequireComSpec'),
                              ('obj', 'QueuedReceiverComSpec'))))),
                          ('allow_unconnected', ('opt', 'bool')),
                          ('desc', ('opt', ('obj', 'MultiLanguageOverviewParagraph'))),
                          ('category', ('opt', 'str')),
                          ('uuid', ('opt', 'str')), ('introduction', ('opt', ('obj', 'DocumentationBlock'))), ('annotations', ('opt', ('list', ('obj', 'Annotation')))),
                          ('long_name', ('opt', ('obj', 'MultilanguageLongName')))],
 'PRPortPrototype': [('name', 'str'),
                     ('port_interface_ref', ('opt', ('ref', 'PortInterfaceRef'))),
                     ('provided_com_spec',
                      ('opt',
                       ('list',
                        ('or',
                         ('obj', 'ModeSwitchSenderComSpec'),
                         ('obj', 'NonqueuedSenderComSpec'),
                         ('obj', 'NvProvideComSpec'),
                         ('obj', 'ParameterProvideComSpec'),
                         ('obj', 'QueuedSenderComSpec'),
                         ('obj', 'ServerComSpec'))))),
                     ('required_com_spec',
                      ('opt',
                       ('list',
                        ('or',
                         ('obj', 'ClientComSpec'),
                         ('obj', 'ModeSwitchReceiverComSpec'),
                         ('obj', 'NonqueuedReceiverComSpec'),
                         ('obj', 'NvRequireComSpec'),
                         ('obj', 'ParameterRequireComSpec'),
                         ('obj', 'QueuedReceiverComSpec'))))),
                     ('desc', ('opt', ('obj', 'MultiLanguageOverviewParagraph'))),
                     ('category', ('opt', 'str')),
                     ('uuid', ('opt', 'str')), ('introduction', ('opt', ('obj', 'DocumentationBlock'))), ('annotations', ('opt', ('list', ('obj', 'Annotation')))),
                     ('long_name', ('opt', ('obj', 'MultilanguageLongName')))],
 'SwComponentType': [('name', 'str'),
                     ('ports',
                      ('opt',
                       ('list',
                        ('or',
                         ('obj', 'ProvidePortPrototype'),
                         ('obj', 'RequirePortPrototype'),
                         ('obj', 'PRPortPrototype'))))),
                     ('desc', ('opt', ('obj', 'MultiLanguageOverviewParagraph'))),
                     ('category', ('opt', 'str')),
                     ('uuid', ('opt', 'str')), ('introduction', ('opt', ('obj', 'DocumentationBlock'))), ('annotations', ('opt', ('list', ('obj', 'Annotation')))),
                     ('long_name', ('opt', ('obj', 'MultilanguageLongName')))],
 'AtomicSoftwareComponentType': [('name', 'str'),
                                 ('internal_behavior', ('opt', ('obj', 'SwcInternalBehavior'))),
                                 ('symbol_props', ('opt', ('obj', 'SymbolProps'))),
                                 ('ports',
                                  ('opt',
                                   ('list',
                                    ('or',
                                     ('obj', 'ProvidePortPrototype'),
                                     ('obj', 'RequirePortPrototype'),
                                     ('obj', 'PRPortPrototype'))))),
                                 ('desc', ('opt', ('obj', 'MultiLanguageOverviewParagraph'))),
                                 ('category', ('opt', 'str')),
                                 ('uuid', ('opt', 'str')), ('introduction', ('opt', ('obj', 'DocumentationBlock'))), ('annotations', ('opt', ('list', ('obj', 'Annotation')))),
                                 ('long_name', ('opt', ('obj', 'MultilanguageLongName')))],
 'ApplicationSoftwareComponentType': [('name', 'str'),
                                      ('internal_behavior', ('opt', ('obj', 'SwcInternalBehavior'))),
                                      ('symbol_props', ('opt', ('obj', 'SymbolProps'))),
                                      ('ports',
                                       ('opt',
                                        ('list',
                                         ('or',
                                          ('obj', 'ProvidePortPrototype'),
                                          ('obj', 'RequirePortPrototype'),
                                          ('obj', 'PRPortPrototype'))))),
                                      ('desc', ('opt', ('obj', 'MultiLanguageOverviewParagraph'))),
                                      ('category', ('opt', 'str')),
                                      ('uuid', ('opt', 'str')), ('introduction', ('opt', ('obj', 'DocumentationBlock'))), ('annotations', ('opt', ('list', ('obj', 'Annotation')))),
                                      ('long_name', ('opt', ('obj', 'MultilanguageLongName')))],
 'SwComponentPrototype': [('name', 'str'),
                          ('type_ref', ('opt', ('ref', 'SwComponentTypeRef'))),
                          ('desc', ('opt', ('obj', 'MultiLanguageOverviewParagraph'))),
                          ('category', ('opt', 'str')),
                          ('uuid', ('opt', 'str')), ('introduction', ('opt', ('obj', 'DocumentationBlock'))), ('annotations', ('opt', ('list', ('obj', 'Annotation')))),
                          ('long_name', ('opt', ('obj', 'MultilanguageLongName')))],
 'PortInCompositionTypeInstanceRef': [('component_ref', ('opt', ('ref', 'SwComponentPrototypeRef'))),
                                      ('port_ref', ('opt', ('ref', 'PortPrototypeRef')))],
 'SwConnector': [('name', 'str'),
                 ('desc', ('opt', ('obj', 'MultiLanguageOverviewParagraph'))),
                 ('category', ('opt', 'str')),
                 ('uuid', ('opt', 'str')), ('introduction', ('opt', ('obj', 'DocumentationBlock'))), ('annotations', ('opt', ('list', ('obj', 'Annotation')))),
                 ('long_name', ('opt', ('obj', 'MultilanguageLongName')))],
 'AssemblySwConnector': [('name', 'str'),
                         ('provide_port', ('opt', ('obj', 'PortInCompositionTypeInstanceRef'))),
                         ('require_port', ('opt', ('obj', 'PortInCompositionTypeInstanceRef'))),
                         ('desc', ('opt', ('obj', 'MultiLanguageOverviewParagraph'))),
                         ('category', ('opt', 'str')),
                         ('uuid', ('opt', 'str')), ('introduction', ('opt', ('obj', 'DocumentationBlock'))), ('annotations', ('opt', ('list', ('obj', 'Annotation')))),
                         ('long_name', ('opt', ('obj', 'MultilanguageLongName')))],
 'DelegationSwConnector': [('name', 'str'),
                           ('inner_port', ('opt', ('obj', 'PortInCompositionTypeInstanceRef'))),
                           ('outer_port', ('opt', ('ref', 'PortPrototypeRef'))),
                           ('desc', ('opt', ('obj', 'MultiLanguageOverviewParagraph'))),
                           ('category', ('opt', 'str')),
                           ('uuid', ('opt', 'str')), ('introduction', ('opt', ('obj', 'DocumentationBlock'))), ('annotations', ('opt', ('list', ('obj', 'Annotation')))),
                           ('long_name', ('opt', ('obj', 'MultilanguageLongName')))],
 'PassThroughSwConnector': [('name', 'str'),
                            ('provide_port', ('opt', ('ref', 'PortPrototypeRef'))),
                            ('require_port', ('opt', ('ref', 'PortPrototypeRef'))),
                            ('desc', ('opt', ('obj', 'MultiLanguageOverviewParagraph'))),
                            ('category', ('opt', 'str')),
                            ('uuid', ('opt', 'str')), ('introduction', ('opt', ('obj', 'DocumentationBlock'))), ('annotations', ('opt', ('list', ('obj', 'Annotation')))),
                            ('long_name', ('opt', ('obj', 'MultilanguageLongName')))],
 'CompositionSwComponentType': [('name', 'str'),
                                ('components', ('opt', ('list', ('obj', 'SwComponentPrototype')))),
                                ('connectors',
                                 ('opt',
                                  ('list',
                                   ('or',
                                    ('obj', 'AssemblySwConnector'),
                                    ('obj', 'DelegationSwConnector'),
                                    ('obj', 'PassThroughSwConnector'))))),
                                ('ports',
                                 ('opt',
                                  ('list',
                                   ('or',
                                    ('obj', 'ProvidePortPrototype'),
                                    ('obj', 'RequirePortPrototype'),
                                    ('obj', 'PRPortPrototype'))))),
                                ('desc', ('opt', ('obj', 'MultiLanguageOverviewParagraph'))),
                                ('category', ('opt', 'str')),
                                ('uuid', ('opt', 'str')), ('introduction', ('opt', ('obj', 'DocumentationBlock'))), ('annotations', ('opt', ('list', ('obj', 'Annotation')))),
                                ('long_name', ('opt', ('obj', 'MultilanguageLongName')))],
 'ModeGroupInAtomicSwcInstanceRef': [],
 'POperationInAtomicSwcInstanceRef': [('context_port', ('opt', ('ref', 'AbstractProvidedPortPrototypeRef'))),
                                      ('target_provided_operation', ('opt', ('ref', 'ClientServerOperationRef')))],
 'PModeGroupInAtomicSwcInstanceRef': [('context_port', ('opt', ('ref', 'AbstractProvidedPortPrototypeRef'))),
                                      ('target_mode_group', ('opt', ('ref', 'ModeDeclarationGroupPrototypeRef')))],
 'PTriggerInAtomicSwcTypeInstanceRef': [('context_port', ('opt', ('ref', 'AbstractProvidedPortPrototypeRef'))),
                                        ('target_trigger', ('opt', ('ref', 'TriggerRef')))],
 'ROperationInAtomicSwcInstanceRef': [('context_port', ('opt', ('ref', 'AbstractRequiredPortPrototypeRef'))),
                                      ('target_required_operation', ('opt', ('ref', 'ClientServerOperationRef')))],
 'RModeInAtomicSwcInstanceRef': [('context_port', ('opt', ('ref', 'AbstractRequiredPortPrototypeRef'))),
                                 ('context_mode_declaration_group_prototype',
                                  ('opt', ('ref', 'ModeDeclarationGroupPrototypeRef'))),
                                 ('target_mode_declaration', ('opt', ('ref', 'ModeDeclarationRef')))],
 'RModeGroupInAtomicSwcInstanceRef': [('context_port', ('opt', ('ref', 'AbstractRequiredPortPrototypeRef'))),
                                      ('target_mode_group', ('opt', ('ref', 'ModeDeclarationGroupPrototypeRef')))],
 'RVariableInAtomicSwcInstanceRef': [('context_port', ('opt', ('ref', 'AbstractRequiredPortPrototypeRef'))),
                                     ('target_data_element', ('opt', ('ref', 'VariableDataPrototypeRef')))],
 'RTriggerInAtomicSwcInstanceRef': [('context_port', ('opt', ('ref', 'AbstractRequiredPortPrototypeRef'))),
                                    ('target_trigger', ('opt', ('ref', 'TriggerRef')))],
 'ArVariableInImplementationDataInstanceRef': [('port_prototype_ref', ('opt', ('ref', 'PortPrototypeRef'))),
                                               ('root_variable_data_prototype_ref',
                                                ('opt', ('ref', 'VariableDataPrototypeRef'))),
                                               ('context_data_prototype_refs',
                                                ('opt', ('list', ('ref', 'AbstractImplementationDataTypeElementRef')))),
                                               ('target_data_prototype_ref',
                                                ('opt', ('ref', 'AbstractImplementationDataTypeElementRef')))],
 'VariableInAtomicSWCTypeInstanceRef': [('port_prototype_ref', ('opt', ('ref', 'PortPrototypeRef'))),
                                        ('root_variable_data_prototype_ref',
                                         ('opt', ('ref', 'VariableDataPrototypeRef'))),
                                        ('context_data_prototype_refs',
                                         ('opt', ('list', ('ref', 'ApplicationCompositeElementDataPrototypeRef')))),
                                        ('target_data_prototype_ref', ('opt', ('ref', 'DataPrototypeRef')))],
 'AutosarVariableRef': [('ar_variable_in_impl_datatype', ('opt', ('obj', 'ArVariableInImplementationDataInstanceRef'))),
                        ('ar_variable_iref', ('opt', ('obj', 'VariableInAtomicSWCTypeInstanceRef'))),
                        ('local_variable_ref', ('opt', ('ref', 'VariableDataPrototypeRef')))],
 'VariableAccess': [('name', 'str'),
                    ('accessed_variable', ('opt', ('obj', 'AutosarVariableRef'))),
                    ('scope', ('opt', ('enum', 'VariableAccessScope'))),
                    ('desc', ('opt', ('obj', 'MultiLanguageOverviewParagraph'))),
                    ('category', ('opt', 'str')),
                    ('uuid', ('opt', 'str')), ('introduction', ('opt', ('obj', 'DocumentationBlock'))), ('annotations', ('opt', ('list', ('obj', 'Annotation')))),
                    ('long_name', ('opt', ('obj', 'MultilanguageLongName')))],
 'SwcImplementation': [('name', 'str'),
                       ('behavior_ref', ('opt', ('ref', 'SwcInternalBehaviorRef'))),
                       ('code_descriptors', ('opt', ('list', ('obj', 'Code')))),
                       ('required_rte_vendor', ('opt', 'str')),
                       ('desc', ('opt', ('obj', 'MultiLanguageOverviewParagraph'))),
                       ('category', ('opt', 'str')),
                       ('uuid', ('opt', 'str')), ('introduction', ('opt', ('obj', 'DocumentationBlock'))), ('annotations', ('opt', ('list', ('obj', 'Annotation')))),
                       ('long_name', ('opt', ('obj', 'MultilanguageLongName')))],
 'ExecutableEntityActivationReason': [('name', 'str'), ('bit_position', ('opt', 'nat')), ('symbol', ('opt', 'str'))],
 'ExclusiveAreaRefConditional': [('exclusive_area', ('opt', ('ref', 'ExclusiveAreaRef')))],
 'ExecutableEntity': [('name', 'str'),
                      ('activation_reasons', ('opt', ('list', ('obj', 'ExecutableEntityActivationReason')))),
                      ('can_enter_leave', ('opt', ('list', ('obj', 'ExclusiveAreaRefConditional')))),
                      ('exclusive_area_nesting_order', ('opt', ('list', ('ref', 'ExclusiveAreaNestingOrderRef')))),
                      ('minimum_start_interval', ('opt', ('or', 'int', 'float'))),
                      ('reentrancy_level', ('opt', ('enum', 'ReentrancyLevel'))),
                      ('runs_insides', ('opt', ('list', ('obj', 'ExclusiveAreaRefConditional')))),
                      ('sw_addr_method', ('opt', ('ref', 'SwAddrMethodRef'))),
                      ('desc', ('opt', ('obj', 'MultiLanguageOverviewParagraph'))),
                      ('category', ('opt', 'str')),
                      ('uuid', ('opt', 'str')), ('introduction', ('opt', ('obj', 'DocumentationBlock'))), ('annotations', ('opt', ('list', ('obj', 'Annotation')))),
                      ('long_name', ('opt', ('obj', 'MultilanguageLongName')))],
 'RunnableEntityArgument': [('symbol', ('opt', 'str'))],
 'AbstractAccessPoint': [('name', 'str'),
                         ('return_value_provision', ('opt', ('enum', 'RteApiReturnValueProvision'))),
                         ('desc', ('opt', ('obj', 'MultiLanguageOverviewParagraph'))),
                         ('category', ('opt', 'str')),
                         ('uuid', ('opt', 'str')), ('introduction', ('opt', ('obj', 'DocumentationBlock'))), ('annotations', ('opt', ('list', ('obj', 'Annotation')))),
                         ('long_name', ('opt', ('obj', 'MultilanguageLongName')))],
 'ServerCallPoint': [('name', 'str'),
                     ('operation', ('opt', ('obj', 'ROperationInAtomicSwcInstanceRef'))),
                     ('timeout', ('opt', ('or', 'int', 'float'))),
                     ('return_value_provision', ('opt', ('enum', 'RteApiReturnValueProvision'))),
                     ('desc', ('opt', ('obj', 'MultiLanguageOverviewParagraph'))),
                     ('category', ('opt', 'str')),
                     ('uuid', ('opt', 'str')), ('introduction', ('opt', ('obj', 'DocumentationBlock'))), ('annotations', ('opt', ('list', ('obj', 'Annotation')))),
                     ('long_name', ('opt', ('obj', 'MultilanguageLongName')))],
 'AsynchronousServerCallPoint': [('name', 'str'),
                                 ('operation', ('opt', ('obj', 'ROperationInAtomicSwcInstanceRef'))),
                                 ('timeout', ('opt', ('or', 'int', 'float'))),
                                 ('return_value_provision', ('opt', ('enum', 'RteApiReturnValueProvision'))),
                                 ('desc', ('opt', ('obj', 'MultiLanguageOverviewParagraph'))),
                                 ('category', ('opt', 'str')),
                                 ('uuid', ('opt', 'str')), ('introduction', ('opt', ('obj', 'DocumentationBlock'))), ('annotations', ('opt', ('list', ('obj', 'Annotation')))),
                                 ('long_name', ('opt', ('obj', 'MultilanguageLongName')))],
 'AsynchronousServerCallResultPoint': [('name', 'str'),
                                       ('async_server_call_point', ('opt', ('ref', 'AsynchronousServerCallPointRef'))),
                                       ('return_value_provision', ('opt', ('enum', 'RteApiReturnValueProvision'))),
                                       ('desc', ('opt', ('obj', 'MultiLanguageOverviewParagraph'))),
                                       ('category', ('opt', 'str')),
                                       ('uuid', ('opt', 'str')), ('introduction', ('opt', ('obj', 'DocumentationBlock'))), ('annotations', ('opt', ('list', ('obj', 'Annotation')))),
                                       ('long_name', ('opt', ('obj', 'MultilanguageLongName')))],
 'SynchronousServerCallPoint': [('name', 'str'),
                                ('called_from_within_exclusive_area', ('opt', ('ref', 'ExclusiveAreaNestingOrderRef'))),
                                ('operation', ('opt', ('obj', 'ROperationInAtomicSwcInstanceRef'))),
                                ('timeout', ('opt', ('or', 'int', 'float'))),
                                ('return_value_provision', ('opt', ('enum', 'RteApiReturnValueProvision'))),
                                ('desc', ('opt', ('obj', 'MultiLanguageOverviewParagraph'))),
                                ('category', ('opt', 'str')),
                                ('uuid', ('opt', 'str')), ('introduction', ('opt', ('obj', 'DocumentationBlock'))), ('annotations', ('opt', ('list', ('obj', 'Annotation')))),
                                ('long_name', ('opt', ('obj', 'MultilanguageLongName')))],
 'ExternalTriggeringPointIdent': [('name', 'str'),
                                  ('return_value_provision', ('opt', ('enum', 'RteApiReturnValueProvision'))),
                                  ('desc', ('opt', ('obj', 'MultiLanguageOverviewParagraph'))),
                                  ('category', ('opt', 'str')),
                                  ('uuid', ('opt', 'str')), ('introduction', ('opt', ('obj', 'DocumentationBlock'))), ('annotations', ('opt', ('list', ('obj', 'Annotation')))),
                                  ('long_name', ('opt', ('obj', 'MultilanguageLongName')))],
 'ExternalTriggeringPoint': [('ident', ('opt', ('obj', 'ExternalTriggeringPointIdent'))),
                             ('trigger', ('opt', ('obj', 'PTriggerInAtomicSwcTypeInstanceRef')))],
 'InternalTriggeringPoint': [('name', 'str'),
                             ('sw_impl_policy', ('opt', ('enum', 'SwImplPolicy'))),
                             ('return_value_provision', ('opt', ('enum', 'RteApiReturnValueProvision'))),
                             ('desc', ('opt', ('obj', 'MultiLanguageOverviewParagraph'))),
                             ('category', ('opt', 'str')),
                             ('uuid', ('opt', 'str')), ('introduction', ('opt', ('obj', 'DocumentationBlock'))), ('annotations', ('opt', ('list', ('obj', 'Annotation')))),
                             ('long_name', ('opt', ('obj', 'MultilanguageLongName')))],
 'ModeAccessPointIdent': [('name', 'str'),
                          ('return_value_provision', ('opt', ('enum', 'RteApiReturnValueProvision'))),
                          ('desc', ('opt', ('obj', 'MultiLanguageOverviewParagraph'))),
                          ('category', ('opt', 'str')),
                          ('uuid', ('opt', 'str')), ('introduction', ('opt', ('obj', 'DocumentationBlock'))), ('annotations', ('opt', ('list', ('obj', 'Annotation')))),
                          ('long_name', ('opt', ('obj', 'MultilanguageLongName')))],
 'ModeAccessPoint': [('ident', ('opt', ('obj', 'ModeAccessPointIdent'))),
                     ('mode_group',
                      ('opt',
                       ('or',
                        ('obj', 'PModeGroupInAtomicSwcInstanceRef'),
                        ('obj', 'RModeGroupInAtomicSwcInstanceRef'))))],
 'ModeSwitchPoint': [('name', 'str'),
                     ('mode_group', ('opt', ('obj', 'PModeGroupInAtomicSwcInstanceRef'))),
                     ('return_value_provision', ('opt', ('enum', 'RteApiReturnValueProvision'))),
                     ('desc', ('opt', ('obj', 'MultiLanguageOverviewParagraph'))),
                     ('category', ('opt', 'str')),
                     ('uuid', ('opt', 'str')), ('introduction', ('opt', ('obj', 'DocumentationBlock'))), ('annotations', ('opt', ('list', ('obj', 'Annotation')))),
                     ('long_name', ('opt', ('obj', 'MultilanguageLongName')))],
 'ParameterInAtomicSwcTypeInstanceRef': [('port_prototype', ('opt', ('ref', 'PortPrototypeRef'))),
                                         ('root_parameter_data_prototype', ('opt', ('ref', 'DataPrototypeRef'))),
                                         ('context_data_prototype',
                                          ('opt', ('ref', 'ApplicationCompositeElementDataPrototypeRef'))),
                                         ('target_data_prototype', ('opt', ('ref', 'DataPrototypeRef')))],
 'AutosarParameterRef': [('autosar_parameter', ('opt', ('obj', 'ParameterInAtomicSwcTypeInstanceRef'))),
                         ('local_parameter', ('opt', ('ref', 'DataPrototypeRef')))],
 'ParameterAccess': [('name', 'str'),
                     ('accessed_parameter', ('opt', ('obj', 'AutosarParameterRef'))),
                     ('sw_data_def_props', ('opt', ('obj', 'SwDataDefProps'))),
                     ('return_value_provision', ('opt', ('enum', 'RteApiReturnValueProvision'))),
                     ('desc', ('opt', ('obj', 'MultiLanguageOverviewParagraph'))),
                     ('category', ('opt', 'str')),
                     ('uuid', ('opt', 'str')), ('introduction', ('opt', ('obj', 'DocumentationBlock'))), ('annotations', ('opt', ('list', ('obj', 'Annotation')))),
                     ('long_name', ('opt', ('obj', 'MultilanguageLongName')))],
 'WaitPoint': [('name', 'str'),
               ('trigger', ('opt', ('ref', 'RteEventRef'))),
               ('timeout', ('opt', ('or', 'int', 'float'))),
               ('desc', ('opt', ('obj', 'MultiLanguageOverviewParagraph'))),
               ('category', ('opt', 'str')),
               ('uuid', ('opt', 'str')), ('introduction', ('opt', ('obj', 'DocumentationBlock'))), ('annotations', ('opt', ('list', ('obj', 'Annotation')))),
               ('long_name', ('opt', ('obj', 'MultilanguageLongName')))],
 'PortAccessOptions': [('access', ('enum', 'PortAccess')),
                       ('result', ('enum', 'ReadResult')),
                       ('mode', ('opt', ('enum', 'ModeAccess'))),
                       ('call', ('enum', 'CallPoint'))],
 'RunnableEntity': [('name', 'str'),
                    ('argument', ('opt', ('list', ('obj', 'RunnableEntityArgument')))),
                    ('async_server_call_result_point', ('opt', ('list', ('obj', 'AsynchronousServerCallResultPoint')))),
                    ('can_be_invoked_concurrently', ('opt', 'bool')),
                    ('data_read_access', ('opt', ('list', ('obj', 'VariableAccess')))),
                    ('data_receive_point_by_argument', ('opt', ('list', ('obj', 'VariableAccess')))),
                    ('data_receive_point_by_value', ('opt', ('list', ('obj', 'VariableAccess')))),
                    ('data_send_point', ('opt', ('list', ('obj', 'VariableAccess')))),
                    ('data_write_access', ('opt', ('list', ('obj', 'VariableAccess')))),
                    ('external_triggering_point', ('opt', ('list', ('obj', 'ExternalTriggeringPoint')))),
                    ('internal_triggering_point', ('opt', ('list', ('obj', 'InternalTriggeringPoint')))),
                    ('mode_access_point', ('opt', ('list', ('obj', 'ModeAccessPoint')))),
                    ('mode_switch_point', ('opt', ('list', ('obj', 'ModeSwitchPoint')))),
                    ('parameter_access', ('opt', ('list', ('obj', 'ParameterAccess')))),
                    ('read_local_variable', ('opt', ('list', ('obj', 'VariableAccess')))),
                    ('write_local_variable', ('opt', ('list', ('obj', 'VariableAccess')))),
                    ('server_call_point',
                     ('opt',
                      ('list', ('or', ('obj', 'AsynchronousServerCallPoint'), ('obj', 'SynchronousServerCallPoint'))))),
                    ('wait_point', ('opt', ('list', ('obj', 'WaitPoint')))),
                    ('symbol', ('opt', 'str')),
                    ('activation_reasons', ('opt', ('list', ('obj', 'ExecutableEntityActivationReason')))),
                    ('can_enter_leave', ('opt', ('list', ('obj', 'ExclusiveAreaRefConditional')))),
                    ('exclusive_area_nesting_order', ('opt', ('list', ('ref', 'ExclusiveAreaNestingOrderRef')))),
                    ('minimum_start_interval', ('opt', ('or', 'int', 'float'))),
                    ('reentrancy_level', ('opt', ('enum', 'ReentrancyLevel'))),
                    ('runs_insides', ('opt', ('list', ('obj', 'ExclusiveAreaRefConditional')))),
                    ('sw_addr_method', ('opt', ('ref', 'SwAddrMethodRef'))),
                    ('desc', ('opt', ('obj', 'MultiLanguageOverviewParagraph'))),
                    ('category', ('opt', 'str')),
                    ('uuid', ('opt', 'str')), ('introduction', ('opt', ('obj', 'DocumentationBlock'))), ('annotations', ('opt', ('list', ('obj', 'Annotation')))),
                    ('long_name', ('opt', ('obj', 'MultilanguageLongName')))],
 'RteEvent': [('name', 'str'),
              ('start_on_event', ('opt', ('ref', 'RunnableEntityRef'))),
              ('disabled_modes', ('opt', ('list', ('obj', 'RModeInAtomicSwcInstanceRef')))),
              ('desc', ('opt', ('obj', 'MultiLanguageOverviewParagraph'))),
              ('category', ('opt', 'str')),
              ('uuid', ('opt', 'str')), ('introduction', ('opt', ('obj', 'DocumentationBlock'))), ('annotations', ('opt', ('list', ('obj', 'Annotation')))),
              ('long_name', ('opt', ('obj', 'MultilanguageLongName')))],
 'AsynchronousServerCallReturnsEvent': [('name', 'str'),
                                        ('start_on_event', ('opt', ('ref', 'RunnableEntityRef'))),
                                        ('event_source', ('opt', ('ref', 'AsynchronousServerCallResultPointRef'))),
                                        ('disabled_modes', ('opt', ('list', ('obj', 'RModeInAtomicSwcInstanceRef')))),
                                        ('desc', ('opt', ('obj', 'MultiLanguageOverviewParagraph'))),
                                        ('category', ('opt', 'str')),
                                        ('uuid', ('opt', 'str')), ('introduction', ('opt', ('obj', 'DocumentationBlock'))), ('annotations', ('opt', ('list', ('obj', 'Annotation')))),
                                        ('long_name', ('opt', ('obj', 'MultilanguageLongName')))],
 'BackgroundEvent': [('name', 'str'),
                     ('start_on_event', ('opt', ('ref', 'RunnableEntityRef'))),
                     ('disabled_modes', ('opt', ('list', ('obj', 'RModeInAtomicSwcInstanceRef')))),
                     ('desc', ('opt', ('obj', 'MultiLanguageOverviewParagraph'))),
                     ('category', ('opt', 'str')),
                     ('uuid', ('opt', 'str')), ('introduction', ('opt', ('obj', 'DocumentationBlock'))), ('annotations', ('opt', ('list', ('obj', 'Annotation')))),
                     ('long_name', ('opt', ('obj', 'MultilanguageLongName')))],
 'DataReceiveErrorEvent': [('name', 'str'),
                           ('start_on_event', ('opt', ('ref', 'RunnableEntityRef'))),
                           ('data', ('opt', ('obj', 'RVariableInAtomicSwcInstanceRef'))),
                           ('disabled_modes', ('opt', ('list', ('obj', 'RModeInAtomicSwcInstanceRef')))),
                           ('desc', ('opt', ('obj', 'MultiLanguageOverviewParagraph'))),
                           ('category', ('opt', 'str')),
                           ('uuid', ('opt', 'str')), ('introduction', ('opt', ('obj', 'DocumentationBlock'))), ('annotations', ('opt', ('list', ('obj', 'Annotation')))),
                           ('long_name', ('opt', ('obj', 'MultilanguageLongName')))],
 'DataReceivedEvent': [('name', 'str'),
                       ('start_on_event', ('opt', ('ref', 'RunnableEntityRef'))),
                       ('data', ('opt', ('obj', 'RVariableInAtomicSwcInstanceRef'))),
                       ('disabled_modes', ('opt', ('list', ('obj', 'RModeInAtomicSwcInstanceRef')))),
                       ('desc', ('opt', ('obj', 'MultiLanguageOverviewParagraph'))),
                       ('category', ('opt', 'str')),
                       ('uuid', ('opt', 'str')), ('introduction', ('opt', ('obj', 'DocumentationBlock'))), ('annotations', ('opt', ('list', ('obj', 'Annotation')))),
                       ('long_name', ('opt', ('obj', 'MultilanguageLongName')))],
 'DataSendCompletedEvent': [('name', 'str'),
                            ('start_on_event', ('opt', ('ref', 'RunnableEntityRef'))),
                            ('event_source', ('opt', ('ref', 'VariableAccessRef'))),
                            ('disabled_modes', ('opt', ('list', ('obj', 'RModeInAtomicSwcInstanceRef')))),
                            ('desc', ('opt', ('obj', 'MultiLanguageOverviewParagraph'))),
                            ('category', ('opt', 'str')),
                            ('uuid', ('opt', 'str')), ('introduction', ('opt', ('obj', 'DocumentationBlock'))), ('annotations', ('opt', ('list', ('obj', 'Annotation')))),
                            ('long_name', ('opt', ('obj', 'MultilanguageLongName')))],
 'DataWriteCompletedEvent': [('name', 'str'),
                             ('start_on_event', ('opt', ('ref', 'RunnableEntityRef'))),
                             ('event_source', ('opt', ('ref', 'VariableAccessRef'))),
                             ('disabled_modes', ('opt', ('list', ('obj', 'RModeInAtomicSwcInstanceRef')))),
                             ('desc', ('opt', ('obj', 'MultiLanguageOverviewParagraph'))),
                             ('category', ('opt', 'str')),
                             ('uuid', ('opt', 'str')), ('introduction', ('opt', ('obj', 'DocumentationBlock'))), ('annotations', ('opt', ('list', ('obj', 'Annotation')))),
                             ('long_name', ('opt', ('obj', 'MultilanguageLongName')))],
 'ExternalTriggerOccurredEvent': [('name', 'str'),
                                  ('start_on_event', ('opt', ('ref', 'RunnableEntityRef'))),
                                  ('trigger', ('opt', ('obj', 'RTriggerInAtomicSwcInstanceRef'))),
                                  ('disabled_modes', ('opt', ('list', ('obj', 'RModeInAtomicSwcInstanceRef')))),
                                  ('desc', ('opt', ('obj', 'MultiLanguageOverviewParagraph'))),
                                  ('category', ('opt', 'str')),
                                  ('uuid', ('opt', 'str')), ('introduction', ('opt', ('obj', 'DocumentationBlock'))), ('annotations', ('opt', ('list', ('obj', 'Annotation')))),
                                  ('long_name', ('opt', ('obj', 'MultilanguageLongName')))],
 'InitEvent': [('name', 'str'),
               ('start_on_event', ('opt', ('ref', 'RunnableEntityRef'))),
               ('disabled_modes', ('opt', ('list', ('obj', 'RModeInAtomicSwcInstanceRef')))),
               ('desc', ('opt', ('obj', 'MultiLanguageOverviewParagraph'))),
               ('category', ('opt', 'str')),
               ('uuid', ('opt', 'str')), ('introduction', ('opt', ('obj', 'DocumentationBlock'))), ('annotations', ('opt', ('list', ('obj', 'Annotation')))),
               ('long_name', ('opt', ('obj', 'MultilanguageLongName')))],
 'InternalTriggerOccurredEvent': [('name', 'str'),
                                  ('start_on_event', ('opt', ('ref', 'RunnableEntityRef'))),
                                  ('event_source', ('opt', ('ref', 'InternalTriggeringPointRef'))),
                                  ('disabled_modes', ('opt', ('list', ('obj', 'RModeInAtomicSwcInstanceRef')))),
                                  ('desc', ('opt', ('obj', 'MultiLanguageOverviewParagraph'))),
                                  ('category', ('opt', 'str')),
                                  ('uuid', ('opt', 'str')), ('introduction', ('opt', ('obj', 'DocumentationBlock'))), ('annotations', ('opt', ('list', ('obj', 'Annotation')))),
                                  ('long_name', ('opt', ('obj', 'MultilanguageLongName')))],
 'ModeSwitchedAckEvent': [('name', 'str'),
                          ('start_on_event', ('opt', ('ref', 'RunnableEntityRef'))),
                          ('event_source', ('opt', ('ref', 'ModeSwitchPointRef'))),
                          ('disabled_modes', ('opt', ('list', ('obj', 'RModeInAtomicSwcInstanceRef')))),
                          ('desc', ('opt', ('obj', 'MultiLanguageOverviewParagraph'))),
                          ('category', ('opt', 'str')),
                          ('uuid', ('opt', 'str')), ('introduction', ('opt', ('obj', 'DocumentationBlock'))), ('annotations', ('opt', ('list', ('obj', 'Annotation')))),
                          ('long_name', ('opt', ('obj', 'MultilanguageLongName')))],
 'OperationInvokedEvent': [('name', 'str'),
                           ('start_on_event', ('opt', ('ref', 'RunnableEntityRef'))),
                           ('operation', ('opt', ('obj', 'POperationInAtomicSwcInstanceRef'))),
                           ('disabled_modes', ('opt', ('list', ('obj', 'RModeInAtomicSwcInstanceRef')))),
                           ('desc', ('opt', ('obj', 'MultiLanguageOverviewParagraph'))),
                           ('category', ('opt', 'str')),
                           ('uuid', ('opt', 'str')), ('introduction', ('opt', ('obj', 'DocumentationBlock'))), ('annotations', ('opt', ('list', ('obj', 'Annotation')))),
                           ('long_name', ('opt', ('obj', 'MultilanguageLongName')))],
 'SwcModeManagerErrorEvent': [('name', 'str'),
                              ('start_on_event', ('opt', ('ref', 'RunnableEntityRef'))),
                              ('mode_group', ('opt', ('obj', 'PModeGroupInAtomicSwcInstanceRef'))),
                              ('disabled_modes', ('opt', ('list', ('obj', 'RModeInAtomicSwcInstanceRef')))),
                              ('desc', ('opt', ('obj', 'MultiLanguageOverviewParagraph'))),
                              ('category', ('opt', 'str')),
                              ('uuid', ('opt', 'str')), ('introduction', ('opt', ('obj', 'DocumentationBlock'))), ('annotations', ('opt', ('list', ('obj', 'Annotation')))),
                              ('long_name', ('opt', ('obj', 'MultilanguageLongName')))],
 'SwcModeSwitchEvent': [('name', 'str'),
                        ('start_on_event', ('opt', ('ref', 'RunnableEntityRef'))),
                        ('activation', ('opt', ('enum', 'ModeActivationKind'))),
                        ('mode', ('opt', ('or', ('obj', 'RModeInAtomicSwcInstanceRef'), ('tuple', ('obj', 'RModeInAtomicSwcInstanceRef'), ('obj', 'RModeInAtomicSwcInstanceRef'))))),
                        ('disabled_modes', ('opt', ('list', ('obj', 'RModeInAtomicSwcInstanceRef')))),
                        ('desc', ('opt', ('obj', 'MultiLanguageOverviewParagraph'))),
                        ('category', ('opt', 'str')),
                        ('uuid', ('opt', 'str')), ('introduction', ('opt', ('obj', 'DocumentationBlock'))), ('annotations', ('opt', ('list', ('obj', 'Annotation')))),
                        ('long_name', ('opt', ('obj', 'MultilanguageLongName')))],
 'TimingEvent': [('name', 'str'),
                 ('start_on_event', ('opt', ('ref', 'RunnableEntityRef'))),
                 ('period', ('opt', ('or', 'int', 'float'))),
                 ('offset', ('opt', ('or', 'int', 'float'))),
                 ('disabled_modes', ('opt', ('list', ('obj', 'RModeInAtomicSwcInstanceRef')))),
                 ('desc', ('opt', ('obj', 'MultiLanguageOverviewParagraph'))),
                 ('category', ('opt', 'str')),
                 ('uuid', ('opt', 'str')), ('introduction', ('opt', ('obj', 'DocumentationBlock'))), ('annotations', ('opt', ('list', ('obj', 'Annotation')))),
                 ('long_name', ('opt', ('obj', 'MultilanguageLongName')))],
 'TransformerHardErrorEvent': [('name', 'str'),
                               ('start_on_event', ('opt', ('ref', 'RunnableEntityRef'))),
                               ('operation', ('opt', ('obj', 'POperationInAtomicSwcInstanceRef'))),
                               ('required_trigger', ('opt', ('obj', 'RTriggerInAtomicSwcInstanceRef'))),
                               ('trigger', ('opt', ('obj', 'PTriggerInAtomicSwcTypeInstanceRef'))),
                               ('disabled_modes', ('opt', ('list', ('obj', 'RModeInAtomicSwcInstanceRef')))),
                               ('desc', ('opt', ('obj', 'MultiLanguageOverviewParagraph'))),
                               ('category', ('opt', 'str')),
                               ('uuid', ('opt', 'str')), ('introduction', ('opt', ('obj', 'DocumentationBlock'))), ('annotations', ('opt', ('list', ('obj', 'Annotation')))),
                               ('long_name', ('opt', ('obj', 'MultilanguageLongName')))],
 'PortDefinedArgumentValue': [('value',
                               ('opt',
                                ('or',
                                 ('obj', 'TextValueSpecification'),
                                 ('obj', 'NumericalValueSpecification'),
                                 ('obj', 'NotAvailableValueSpecification'),
                                 ('obj', 'ArrayValueSpecification'),
                                 ('obj', 'RecordValueSpecification'),
                                 ('obj', 'ApplicationValueSpecification'),
                                 ('obj', 'ConstantReference')))),
                              ('value_type', ('opt', ('ref', 'ImplementationDataTypeRef')))],
 'SwcSupportedFeature': [],
 'CommunicationBufferLocking': [('support_buffer_locking', ('opt', ('enum', 'SupportBufferLocking')))],
 'PortApiOption': [('port', ('opt', ('ref', 'PortPrototypeRef'))),
                   ('enable_take_address', ('opt', 'bool')),
                   ('indirect_api', ('opt', 'bool')),
                   ('error_handling', ('opt', ('enum', 'DataTransformationErrorHandling'))),
                   ('port_arg_values', ('opt', ('list', ('obj', 'PortDefinedArgumentValue')))),
                   ('supported_features', ('opt', ('list', ('obj', 'CommunicationBufferLocking')))),
                   ('transformer_status_forwarding', ('opt', ('enum', 'DataTransformationStatusForwarding')))],
 'ExclusiveArea': [('name', 'str'),
                   ('desc', ('opt', ('obj', 'MultiLanguageOverviewParagraph'))),
                   ('category', ('opt', 'str')),
                   ('uuid', ('opt', 'str')), ('introduction', ('opt', ('obj', 'DocumentationBlock'))), ('annotations', ('opt', ('list', ('obj', 'Annotation')))),
                   ('long_name', ('opt', ('obj', 'MultilanguageLongName')))],
 'InternalBehavior': [('name', 'str'),
                      ('data_type_mappings', ('opt', ('list', ('ref', 'DataTypeMappingSetRef')))),
                      ('exclusive_areas', ('opt', ('list', ('obj', 'ExclusiveArea')))),
                      ('desc', ('opt', ('obj', 'MultiLanguageOverviewParagraph'))),
                      ('category', ('opt', 'str')),
                      ('uuid', ('opt', 'str')), ('introduction', ('opt', ('obj', 'DocumentationBlock'))), ('annotations', ('opt', ('list', ('obj', 'Annotation')))),
                      ('long_name', ('opt', ('obj', 'MultilanguageLongName')))],
 'SwcInternalBehavior': [('name', 'str'),
                         ('events',
                          ('opt',
                           ('list',
                            ('or',
                             ('obj', 'AsynchronousServerCallReturnsEvent'),
                             ('obj', 'BackgroundEvent'),
                             ('obj', 'DataReceiveErrorEvent'),
                             ('obj', 'DataReceivedEvent'),
                             ('obj', 'DataSendCompletedEvent'),
                             ('obj', 'DataWriteCompletedEvent'),
                             ('obj', 'ExternalTriggerOccurredEvent'),
                             ('obj', 'InitEvent'),
                             ('obj', 'InternalTriggerOccurredEvent'),
                             ('obj', 'ModeSwitchedAckEvent'),
                             ('obj', 'OperationInvokedEvent'),
                             ('obj', 'SwcModeManagerErrorEvent'),
                             ('obj', 'SwcModeSwitchEvent'),
                             ('obj', 'TimingEvent'),
                             ('obj', 'TransformerHardErrorEvent'))))),
                         ('runnables', ('opt', ('list', ('obj', 'RunnableEntity')))),
                         ('port_api_options', ('opt', ('list', ('obj', 'PortApiOption')))),
                         ('data_type_mappings', ('opt', ('list', ('ref', 'DataTypeMappingSetRef')))),
                         ('exclusive_areas', ('opt', ('list', ('obj', 'ExclusiveArea')))),
                         ('desc', ('opt', ('obj', 'MultiLanguageOverviewParagraph'))),
                         ('category', ('opt', 'str')),
                         ('uuid', ('opt', 'str')), ('introduction', ('opt', ('obj', 'DocumentationBlock'))), ('annotations', ('opt', ('list', ('obj', 'Annotation')))),
                         ('long_name', ('opt', ('obj', 'MultilanguageLongName')))]}

# classes filled by append(): (constructor parameters, item domain)
APPEND = {'MultilanguageLongName': ([], ('obj', 'LanguageLongName')),
 'MultiLanguageOverviewParagraph': ([], ('obj', 'LanguageOverviewParagraph')),
 'MultiLanguageParagraph': ([('help_entry', ('opt', 'str')),
                             ('page_break', ('opt', ('enum', 'PageBreak'))),
                             ('keep_with_previous', ('opt', ('enum', 'KeepWithPrevious'))),
                             ('semantic_information', ('opt', 'str')),
                             ('view', ('opt', 'str'))],
                            ('obj', 'LanguageParagraph')),
 'MultiLanguageVerbatim': ([('allow_break', ('opt', 'str')),
                            ('float', ('opt', ('enum', 'Float'))),
                            ('page_wide', ('opt', ('enum', 'PageWide'))),
                            ('help_entry', ('opt', 'str')),
                            ('page_break', ('opt', ('enum', 'PageBreak'))),
                            ('keep_with_previous', ('opt', ('enum', 'KeepWithPrevious'))),
                            ('semantic_information', ('opt', 'str')),
                            ('view', ('opt', 'str'))],
                           ('obj', 'LanguageVerbatim'))
}

# what a package can contain
ELEMENTS = ['CompuMethod', 'DataConstraint', 'Unit', 'SwBaseType', 'ImplementationDataType', 'ApplicationPrimitiveDataType', 'ApplicationArrayDataType', 'ApplicationRecordDataType', 'DataTypeMappingSet', 'SwAddrMethod', 'ConstantSpecification', 'ModeDeclarationGroup', 'SenderReceiverInterface', 'NvDataInterface', 'ParameterInterface', 'ClientServerInterface', 'ModeSwitchInterface', 'E2EProfileCompatibilityProps', 'ApplicationSoftwareComponentType', 'CompositionSwComponentType', 'SwcImplementation']
APPEND['Package'] = (TABLE['Package'], [('or', *[('obj', x) for x in ELEMENTS]), ('obj', 'Package')])
