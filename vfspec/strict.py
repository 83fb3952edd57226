"""The kinds of values that the parameters of the constructors take: all others raise TypeError (frozen; see tools/freeze_strict.py)."""

TAKES = {('ARElement', 'annotations'): (),
 ('ARElement', 'desc'): ('str',),
 ('ARElement', 'introduction'): (),
 ('AbstractAccessPoint', 'return_value_provision'): (),
 ('ApplicationArrayDataType', 'element'): (),
 ('ApplicationArrayElement', 'array_size_handling'): (),
 ('ApplicationArrayElement', 'array_size_semantics'): (),
 ('ApplicationArrayElement', 'index_data_type_ref'): ('str',),
 ('ApplicationArrayElement', 'max_number_of_elements'): ('int', 'bool'),
 ('ApplicationCompositeDataType', 'sw_data_def_props'): ('SwDataDefPropsConditional',),
 ('ApplicationCompositeElementDataPrototype', 'type_ref'): (),
 ('ApplicationDataType', 'sw_data_def_props'): ('SwDataDefPropsConditional',),
 ('ApplicationError', 'error_code'): ('int', 'bool'),
 ('ApplicationPrimitiveDataType', 'sw_data_def_props'): ('SwDataDefPropsConditional',),
 ('ApplicationSoftwareComponentType', 'internal_behavior'): (),
 ('ApplicationSoftwareComponentType', 'symbol_props'): (),
 ('ApplicationValueSpecification', 'category'): ('str',),
 ('ApplicationValueSpecification', 'sw_axis_conts'): (),
 ('ApplicationValueSpecification', 'sw_value_cont'): (),
 ('ArVariableInImplementationDataInstanceRef', 'port_prototype_ref'): (),
 ('ArVariableInImplementationDataInstanceRef', 'root_variable_data_prototype_ref'): (),
 ('ArVariableInImplementationDataInstanceRef', 'target_data_prototype_ref'): ('AbstractImplementationDataTypeElementRef',),
 ('ArgumentDataPrototype', 'direction'): (),
 ('ArgumentDataPrototype', 'server_arg_impl_policy'): (),
 ('AssemblySwConnector', 'provide_port'): (),
 ('AssemblySwConnector', 'require_port'): (),
 ('AsynchronousServerCallPoint', 'operation'): (),
 ('AsynchronousServerCallPoint', 'timeout'): ('int', 'float', 'str', 'bool'),
 ('AsynchronousServerCallResultPoint', 'async_server_call_point'): ('str',),
 ('AsynchronousServerCallReturnsEvent', 'event_source'): ('str',),
 ('AsynchronousServerCallReturnsEvent', 'start_on_event'): ('str',),
 ('AtomicSoftwareComponentType', 'internal_behavior'): (),
 ('AtomicSoftwareComponentType', 'symbol_props'): (),
 ('AutosarDataPrototype', 'type_ref'): (),
 ('AutosarDataType', 'sw_data_def_props'): ('SwDataDefPropsConditional',),
 ('AutosarEngineeringObject', 'category'): ('str',),
 ('AutosarEngineeringObject', 'label'): ('str',),
 ('AutosarParameterRef', 'autosar_parameter'): (),
 ('AutosarParameterRef', 'local_parameter'): ('ApplicationCompositeElementDataPrototypeRef',),
 ('AutosarVariableRef', 'ar_variable_in_impl_datatype'): (),
 ('AutosarVariableRef', 'ar_variable_iref'): (),
 ('AutosarVariableRef', 'local_variable_ref'): (),
 ('BackgroundEvent', 'start_on_event'): ('str',),
 ('ClientComSpec', 'e2e_call_respone_timeout'): ('int', 'float', 'str', 'bool'),
 ('ClientComSpec', 'operation_ref'): ('str',),
 ('ClientComSpec', 'transformation_com_spec_props'): ('EndToEndTransformationComSpecProps', 'list:EndToEndTransformationComSpecProps'),
 ('ClientServerInterface', 'operations'): ('ClientServerOperation', 'list:ClientServerOperation'),
 ('ClientServerInterface', 'possible_errors'): ('ApplicationError', 'list:ApplicationError'),
 ('ClientServerOperation', 'arguments'): ('ArgumentDataPrototype', 'list:ArgumentDataPrototype'),
 ('ClientServerOperation', 'diag_arg_integrity'): ('bool',),
 ('ClientServerOperation', 'fire_and_forget'): ('bool',),
 ('ClientServerOperation', 'possible_error_refs'): ('str', 'ApplicationErrorRef', 'list:str', 'list:ApplicationErrorRef'),
 ('Code', 'artifact_descriptors'): ('AutosarEngineeringObject', 'str', 'list:AutosarEngineeringObject'),
 ('CollectableElement', 'annotations'): (),
 ('CollectableElement', 'desc'): ('str',),
 ('CollectableElement', 'introduction'): (),
 ('CommunicationBufferLocking', 'support_buffer_locking'): (),
 ('CompositionSwComponentType', 'components'): ('SwComponentPrototype', 'list:SwComponentPrototype'),
 ('CompositionSwComponentType', 'connectors'): ('AssemblySwConnector',
                                                'DelegationSwConnector',
                                                'PassThroughSwConnector',
                                                'list:AssemblySwConnector',
                                                'list:DelegationSwConnector',
                                                'list:PassThroughSwConnector'),
 ('CompuMethod', 'unit_ref'): ('str', 'UnitRef'),
 ('CompuScale', 'inverse_value'): ('int', 'float', 'str', 'bool'),
 ('ConstantReference', 'constant_ref'): ('str',),
 ('ConstantSpecification', 'value'): ('ApplicationValueSpecification',
                                      'ArrayValueSpecification',
                                      'ConstantReference',
                                      'NotAvailableValueSpecification',
                                      'NumericalValueSpecification',
                                      'RecordValueSpecification',
                                      'TextValueSpecification'),
 ('DataFilter', 'data_filter_type'): (),
 ('DataFilter', 'mask'): ('int', 'float', 'str', 'bool'),
 ('DataFilter', 'max_val'): ('int', 'float', 'str', 'bool'),
 ('DataFilter', 'min_val'): ('int', 'float', 'str', 'bool'),
 ('DataFilter', 'offset'): ('int', 'float', 'str', 'bool'),
 ('DataFilter', 'period'): ('int', 'float', 'str', 'bool'),
 ('DataFilter', 'x'): ('int', 'float', 'str', 'bool'),
 ('DataInterface', 'is_service'): ('bool',),
 ('DataInterface', 'service_kind'): (),
 ('DataPrototype', 'sw_data_def_props'): ('SwDataDefPropsConditional',),
 ('DataReceiveErrorEvent', 'data'): (),
 ('DataReceiveErrorEvent', 'start_on_event'): ('str',),
 ('DataReceivedEvent', 'data'): (),
 ('DataReceivedEvent', 'start_on_event'): ('str',),
 ('DataSendCompletedEvent', 'event_source'): ('str',),
 ('DataSendCompletedEvent', 'start_on_event'): ('str',),
 ('DataTypeMap', 'appl_data_type_ref'): (),
 ('DataTypeMap', 'impl_data_type_ref'): ('str',),
 ('DataTypeMappingSet', 'data_type_maps'): ('DataTypeMap', 'list:DataTypeMap'),
 ('DataWriteCompletedEvent', 'event_source'): ('str',),
 ('DataWriteCompletedEvent', 'start_on_event'): ('str',),
 ('DelegationSwConnector', 'inner_port'): (),
 ('DelegationSwConnector', 'outer_port'): (),
 ('Describable', 'desc'): ('str',),
 ('Describable', 'introduction'): (),
 ('DocumentViewSelectable', 'semantic_information'): ('str',),
 ('DocumentViewSelectable', 'view'): ('str',),
 ('E2EProfileCompatibilityProps', 'transit_to_invalid_extended'): ('bool',),
 ('EndToEndTransformationComSpecProps', 'clear_from_valid_to_invalid'): ('bool',),
 ('EndToEndTransformationComSpecProps', 'disable_e2e_check'): ('bool',),
 ('EndToEndTransformationComSpecProps', 'disable_e2e_state_machine'): ('bool',),
 ('EndToEndTransformationComSpecProps', 'e2e_profile_compatibility_props_ref'): ('str',),
 ('EndToEndTransformationComSpecProps', 'max_delta_counter'): ('int', 'bool'),
 ('EndToEndTransformationComSpecProps', 'max_error_state_init'): ('int', 'bool'),
 ('EndToEndTransformationComSpecProps', 'max_error_state_invalid'): ('int', 'bool'),
 ('EndToEndTransformationComSpecProps', 'max_error_state_valid'): ('int', 'bool'),
 ('EndToEndTransformationComSpecProps', 'max_no_new_repeated_data'): ('int', 'bool'),
 ('EndToEndTransformationComSpecProps', 'min_ok_state_init'): ('int', 'bool'),
 ('EndToEndTransformationComSpecProps', 'min_ok_state_invalid'): ('int', 'bool'),
 ('EndToEndTransformationComSpecProps', 'min_ok_state_valid'): ('int', 'bool'),
 ('EndToEndTransformationComSpecProps', 'sync_counter_init'): ('int', 'bool'),
 ('EndToEndTransformationComSpecProps', 'window_size'): ('int', 'bool'),
 ('EndToEndTransformationComSpecProps', 'window_size_init'): ('int', 'bool'),
 ('EndToEndTransformationComSpecProps', 'window_size_invalid'): ('int', 'bool'),
 ('EndToEndTransformationComSpecProps', 'window_size_valid'): ('int', 'bool'),
 ('EngineeringObject', 'category'): ('str',),
 ('EngineeringObject', 'label'): ('str',),
 ('ExclusiveArea', 'annotations'): (),
 ('ExclusiveArea', 'desc'): ('str',),
 ('ExclusiveArea', 'introduction'): (),
 ('ExclusiveAreaRefConditional', 'exclusive_area'): ('str', 'ExclusiveAreaRef'),
 ('ExecutableEntity', 'activation_reasons'): ('ExecutableEntityActivationReason', 'list:ExecutableEntityActivationReason'),
 ('ExecutableEntity', 'can_enter_leave'): ('str',
                                           'ExclusiveAreaRef',
                                           'ExclusiveAreaRefConditional',
                                           'list:str',
                                           'list:ExclusiveAreaRef',
                                           'list:ExclusiveAreaRefConditional'),
 ('ExecutableEntity', 'minimum_start_interval'): ('int', 'float', 'str', 'bool'),
 ('ExecutableEntity', 'reentrancy_level'): (),
 ('ExecutableEntity', 'runs_insides'): ('str',
                                        'ExclusiveAreaRef',
                                        'ExclusiveAreaRefConditional',
                                        'list:str',
                                        'list:ExclusiveAreaRef',
                                        'list:ExclusiveAreaRefConditional'),
 ('ExecutableEntity', 'sw_addr_method'): ('str',),
 ('ExecutableEntityActivationReason', 'bit_position'): ('int', 'bool'),
 ('ExternalTriggerOccurredEvent', 'start_on_event'): ('str',),
 ('ExternalTriggerOccurredEvent', 'trigger'): (),
 ('ExternalTriggeringPoint', 'ident'): (),
 ('ExternalTriggeringPoint', 'trigger'): (),
 ('ExternalTriggeringPointIdent', 'return_value_provision'): (),
 ('Identifiable', 'annotations'): (),
 ('Identifiable', 'desc'): ('str',),
 ('Identifiable', 'introduction'): (),
 ('Implementation', 'code_descriptors'): ('Code', 'str', 'list:Code'),
 ('ImplementationDataType', 'sub_elements'): ('str', 'list:ImplementationDataTypeElement'),
 ('ImplementationDataType', 'symbol_props'): (),
 ('ImplementationDataTypeElement', 'array_impl_policy'): (),
 ('ImplementationDataTypeElement', 'array_size'): ('int', 'bool'),
 ('ImplementationDataTypeElement', 'array_size_handling'): (),
 ('ImplementationDataTypeElement', 'array_size_semantics'): (),
 ('ImplementationDataTypeElement', 'sub_elements'): ('str', 'list:ImplementationDataTypeElement'),
 ('ImplementationDataTypeElement', 'sw_data_def_props'): ('SwDataDefPropsConditional',),
 ('InitEvent', 'start_on_event'): ('str',),
 ('InternalBehavior', 'data_type_mappings'): ('str', 'DataTypeMappingSetRef', 'list:DataTypeMappingSetRef'),
 ('InternalBehavior', 'exclusive_areas'): ('ExclusiveArea', 'str', 'list:ExclusiveArea'),
 ('InternalTriggerOccurredEvent', 'event_source'): ('str',),
 ('InternalTriggerOccurredEvent', 'start_on_event'): ('str',),
 ('InternalTriggeringPoint', 'sw_impl_policy'): (),
 ('InvalidationPolicy', 'data_element_ref'): ('str',),
 ('InvalidationPolicy', 'handle_invalid'): (),
 ('LanguageLongName', 'parts'): ('str',
                                 'list:str',
                                 'list:EmphasisText',
                                 'list:IndexEntry',
                                 'list:Subscript',
                                 'list:Superscript',
                                 'list:TechnicalTerm'),
 ('LanguageOverviewParagraph', 'parts'): ('str',
                                          'list:str',
                                          'list:Break',
                                          'list:EmphasisText',
                                          'list:IndexEntry',
                                          'list:Subscript',
                                          'list:Superscript',
                                          'list:TechnicalTerm'),
 ('LanguageParagraph', 'parts'): ('str',
                                  'list:str',
                                  'list:Break',
                                  'list:EmphasisText',
                                  'list:IndexEntry',
                                  'list:Subscript',
                                  'list:Superscript',
                                  'list:TechnicalTerm'),
 ('LanguageVerbatim', 'parts'): ('str', 'list:str', 'list:Break', 'list:EmphasisText', 'list:TechnicalTerm'),
 ('ModeAccessPoint', 'ident'): (),
 ('ModeAccessPoint', 'mode_group'): (),
 ('ModeAccessPointIdent', 'return_value_provision'): (),
 ('ModeDeclaration', 'value'): ('int', 'bool'),
 ('ModeDeclarationGroup', 'initial_mode_ref'): ('str',),
 ('ModeDeclarationGroup', 'mode_declarations'): ('ModeDeclaration', 'list:str', 'list:ModeDeclaration'),
 ('ModeDeclarationGroup', 'mode_manager_error_behavior'): (),
 ('ModeDeclarationGroup', 'mode_transitions'): ('ModeTransition', 'list:ModeTransition'),
 ('ModeDeclarationGroup', 'mode_user_error_behavior'): (),
 ('ModeDeclarationGroup', 'on_transition_value'): ('int', 'bool'),
 ('ModeDeclarationGroupPrototype', 'calibration_access'): (),
 ('ModeDeclarationGroupPrototype', 'type_ref'): ('str',),
 ('ModeErrorBehavior', 'default_mode_ref'): ('str',),
 ('ModeErrorBehavior', 'error_reaction_policy'): (),
 ('ModeRequestTypeMap', 'implementation_data_type'): ('str',),
 ('ModeRequestTypeMap', 'mode_group'): ('str',),
 ('ModeSwitchInterface', 'mode_group'): (),
 ('ModeSwitchPoint', 'mode_group'): (),
 ('ModeSwitchReceiverComSpec', 'mode_group_ref'): ('str',),
 ('ModeSwitchSenderComSpec', 'mode_group_ref'): ('str',),
 ('ModeSwitchSenderComSpec', 'mode_switched_ack'): ('int', 'float', 'bool'),
 ('ModeSwitchSenderComSpec', 'queue_length'): ('int', 'bool'),
 ('ModeSwitchedAckEvent', 'event_source'): ('str',),
 ('ModeSwitchedAckEvent', 'start_on_event'): ('str',),
 ('ModeSwitchedAckRequest', 'timeout'): ('int', 'float', 'str', 'bool'),
 ('ModeTransition', 'entered_mode_ref'): ('str',),
 ('ModeTransition', 'exited_mode_ref'): ('str',),
 ('MultiLanguageOverviewParagraph', 'paragraph'): ('LanguageOverviewParagraph',),
 ('MultiLanguageParagraph', 'paragraph'): ('LanguageParagraph',),
 ('MultiLanguageReferrable', 'long_name'): (),
 ('MultiLanguageVerbatim', 'element'): ('LanguageVerbatim',),
 ('MultilanguageLongName', 'long_name'): ('LanguageLongName',),
 ('NonqueuedReceiverComSpec', 'alive_timeout'): ('int', 'float', 'str', 'bool'),
 ('NonqueuedReceiverComSpec', 'data_filter'): (),
 ('NonqueuedReceiverComSpec', 'handle_timeout_type'): (),
 ('NonqueuedReceiverComSpec', 'init_value'): ('ApplicationValueSpecification',
                                              'ArrayValueSpecification',
                                              'ConstantReference',
                                              'NotAvailableValueSpecification',
                                              'NumericalValueSpecification',
                                              'RecordValueSpecification',
                                              'TextValueSpecification'),
 ('NonqueuedReceiverComSpec', 'timeout_substitution_value'): ('ApplicationValueSpecification',
                                                              'ArrayValueSpecification',
                                                              'ConstantReference',
                                                              'NotAvailableValueSpecification',
                                                              'NumericalValueSpecification',
                                                              'RecordValueSpecification',
                                                              'TextValueSpecification'),
 ('NonqueuedSenderComSpec', 'data_filter'): (),
 ('NonqueuedSenderComSpec', 'init_value'): ('ApplicationValueSpecification',
                                            'ArrayValueSpecification',
                                            'ConstantReference',
                                            'NotAvailableValueSpecification',
                                            'NumericalValueSpecification',
                                            'RecordValueSpecification',
                                            'TextValueSpecification'),
 ('NumericalValue', 'value'): ('int', 'float', 'str', 'bool'),
 ('NvDataInterface', 'data_elements'): ('VariableDataPrototype', 'list:VariableDataPrototype'),
 ('NvProvideComSpec', 'ram_block_init_value'): ('ApplicationValueSpecification',
                                                'ArrayValueSpecification',
                                                'ConstantReference',
                                                'NotAvailableValueSpecification',
                                                'NumericalValueSpecification',
                                                'RecordValueSpecification',
                                                'TextValueSpecification'),
 ('NvProvideComSpec', 'rom_block_init_value'): ('ApplicationValueSpecification',
                                                'ArrayValueSpecification',
                                                'ConstantReference',
                                                'NotAvailableValueSpecification',
                                                'NumericalValueSpecification',
                                                'RecordValueSpecification',
                                                'TextValueSpecification'),
 ('NvProvideComSpec', 'variable_ref'): ('str',),
 ('NvRequireComSpec', 'init_value'): ('ApplicationValueSpecification',
                                      'ArrayValueSpecification',
                                      'ConstantReference',
                                      'NotAvailableValueSpecification',
                                      'NumericalValueSpecification',
                                      'RecordValueSpecification',
                                      'TextValueSpecification'),
 ('NvRequireComSpec', 'variable_ref'): ('str',),
 ('OperationInvokedEvent', 'operation'): (),
 ('OperationInvokedEvent', 'start_on_event'): ('str',),
 ('PModeGroupInAtomicSwcInstanceRef', 'context_port'): (),
 ('PModeGroupInAtomicSwcInstanceRef', 'target_mode_group'): ('str',),
 ('POperationInAtomicSwcInstanceRef', 'context_port'): (),
 ('POperationInAtomicSwcInstanceRef', 'target_provided_operation'): ('str',),
 ('PRPortPrototype', 'port_interface_ref'): (),
 ('PRPortPrototype', 'provided_com_spec'): ('ModeSwitchSenderComSpec',
                                            'NonqueuedSenderComSpec',
                                            'NvProvideComSpec',
                                            'ParameterProvideComSpec',
                                            'QueuedSenderComSpec',
                                            'ServerComSpec',
                                            'list:ClientComSpec',
                                            'list:ModeSwitchReceiverComSpec',
                                            'list:ModeSwitchSenderComSpec',
                                            'list:NonqueuedReceiverComSpec',
                                            'list:NonqueuedSenderComSpec',
                                            'list:NvProvideComSpec',
                                            'list:NvRequireComSpec',
                                            'list:ParameterProvideComSpec',
                                            'list:ParameterRequireComSpec',
                                            'list:QueuedReceiverComSpec',
                                            'list:QueuedSenderComSpec',
                                            'list:ServerComSpec'),
 ('PRPortPrototype', 'required_com_spec'): ('ClientComSpec',
                                            'ModeSwitchReceiverComSpec',
                                            'NonqueuedReceiverComSpec',
                                            'NvRequireComSpec',
                                            'ParameterRequireComSpec',
                                            'QueuedReceiverComSpec',
                                            'list:ClientComSpec',
                                            'list:ModeSwitchReceiverComSpec',
                                            'list:ModeSwitchSenderComSpec',
                                            'list:NonqueuedReceiverComSpec',
                                            'list:NonqueuedSenderComSpec',
                                            'list:NvProvideComSpec',
                                            'list:NvRequireComSpec',
                                            'list:ParameterProvideComSpec',
                                            'list:ParameterRequireComSpec',
                                            'list:QueuedReceiverComSpec',
                                            'list:QueuedSenderComSpec',
                                            'list:ServerComSpec'),
 ('PTriggerInAtomicSwcTypeInstanceRef', 'context_port'): (),
 ('PTriggerInAtomicSwcTypeInstanceRef', 'target_trigger'): ('str',),
 ('PackageCollection', 'packages'): ('str', 'list:Package'),
 ('Paginateable', 'keep_with_previous'): (),
 ('Paginateable', 'page_break'): (),
 ('ParameterAccess', 'accessed_parameter'): (),
 ('ParameterAccess', 'sw_data_def_props'): ('SwDataDefPropsConditional',),
 ('ParameterDataPrototype', 'init_value'): ('ApplicationValueSpecification',
                                            'ArrayValueSpecification',
                                            'ConstantReference',
                                            'NotAvailableValueSpecification',
                                            'NumericalValueSpecification',
                                            'RecordValueSpecification',
                                            'TextValueSpecification'),
 ('ParameterInAtomicSwcTypeInstanceRef', 'context_data_prototype'): ('ApplicationCompositeElementDataPrototypeRef',),
 ('ParameterInAtomicSwcTypeInstanceRef', 'port_prototype'): (),
 ('ParameterInAtomicSwcTypeInstanceRef', 'root_parameter_data_prototype'): ('ApplicationCompositeElementDataPrototypeRef',),
 ('ParameterInAtomicSwcTypeInstanceRef', 'target_data_prototype'): ('ApplicationCompositeElementDataPrototypeRef',),
 ('ParameterInterface', 'parameters'): ('ParameterDataPrototype', 'list:ParameterDataPrototype'),
 ('ParameterProvideComSpec', 'init_value'): ('ApplicationValueSpecification',
                                             'ArrayValueSpecification',
                                             'ConstantReference',
                                             'NotAvailableValueSpecification',
                                             'NumericalValueSpecification',
                                             'RecordValueSpecification',
                                             'TextValueSpecification'),
 ('ParameterProvideComSpec', 'parameter_ref'): ('str',),
 ('ParameterRequireComSpec', 'init_value'): ('ApplicationValueSpecification',
                                             'ArrayValueSpecification',
                                             'ConstantReference',
                                             'NotAvailableValueSpecification',
                                             'NumericalValueSpecification',
                                             'RecordValueSpecification',
                                             'TextValueSpecification'),
 ('ParameterRequireComSpec', 'parameter_ref'): ('str',),
 ('PassThroughSwConnector', 'provide_port'): (),
 ('PassThroughSwConnector', 'require_port'): (),
 ('PhysicalConstraint', 'unit_ref'): ('str', 'UnitRef'),
 ('PortApiOption', 'error_handling'): (),
 ('PortApiOption', 'port'): (),
 ('PortApiOption', 'port_arg_values'): ('PortDefinedArgumentValue', 'list:PortDefinedArgumentValue'),
 ('PortApiOption', 'supported_features'): ('CommunicationBufferLocking', 'list:CommunicationBufferLocking'),
 ('PortApiOption', 'transformer_status_forwarding'): (),
 ('PortDefinedArgumentValue', 'value'): ('ApplicationValueSpecification',
                                         'ArrayValueSpecification',
                                         'ConstantReference',
                                         'NotAvailableValueSpecification',
                                         'NumericalValueSpecification',
                                         'RecordValueSpecification',
                                         'TextValueSpecification'),
 ('PortDefinedArgumentValue', 'value_type'): ('str',),
 ('PortInCompositionTypeInstanceRef', 'component_ref'): (),
 ('PortInCompositionTypeInstanceRef', 'port_ref'): (),
 ('PortInterface', 'is_service'): ('bool',),
 ('PortInterface', 'service_kind'): (),
 ('PortPrototype', 'annotations'): (),
 ('PortPrototype', 'desc'): ('str',),
 ('PortPrototype', 'introduction'): (),
 ('PositiveIntegerValue', 'value'): ('int', 'bool', 'str'),
 ('ProvidePortPrototype', 'com_spec'): ('ModeSwitchSenderComSpec',
                                        'NonqueuedSenderComSpec',
                                        'NvProvideComSpec',
                                        'ParameterProvideComSpec',
                                        'QueuedSenderComSpec',
                                        'ServerComSpec',
                                        'list:ModeSwitchSenderComSpec',
                                        'list:NonqueuedSenderComSpec',
                                        'list:NvProvideComSpec',
                                        'list:ParameterProvideComSpec',
                                        'list:QueuedSenderComSpec',
                                        'list:ServerComSpec'),
 ('ProvidePortPrototype', 'port_interface_ref'): (),
 ('QueuedReceiverComSpec', 'queue_length'): ('int', 'bool'),
 ('QueuedSenderComSpec', 'data_element_ref'): (),
 ('QueuedSenderComSpec', 'handle_out_of_range'): (),
 ('QueuedSenderComSpec', 'network_representation'): (),
 ('QueuedSenderComSpec', 'tranmsission_props'): (),
 ('QueuedSenderComSpec', 'transmission_acknowledge'): ('int', 'float', 'bool'),
 ('RModeGroupInAtomicSwcInstanceRef', 'context_port'): (),
 ('RModeGroupInAtomicSwcInstanceRef', 'target_mode_group'): ('str',),
 ('RModeInAtomicSwcInstanceRef', 'context_mode_declaration_group_prototype'): ('str',),
 ('RModeInAtomicSwcInstanceRef', 'context_port'): (),
 ('RModeInAtomicSwcInstanceRef', 'target_mode_declaration'): ('str',),
 ('ROperationInAtomicSwcInstanceRef', 'context_port'): (),
 ('ROperationInAtomicSwcInstanceRef', 'target_required_operation'): ('str',),
 ('RTriggerInAtomicSwcInstanceRef', 'context_port'): (),
 ('RTriggerInAtomicSwcInstanceRef', 'target_trigger'): ('str',),
 ('RVariableInAtomicSwcInstanceRef', 'context_port'): (),
 ('RVariableInAtomicSwcInstanceRef', 'target_data_element'): ('str',),
 ('ReceiverComSpec', 'data_element_ref'): (),
 ('ReceiverComSpec', 'handle_out_of_range'): (),
 ('ReceiverComSpec', 'handle_out_of_range_status'): (),
 ('ReceiverComSpec', 'max_delta_counter_init'): ('int', 'bool'),
 ('ReceiverComSpec', 'max_no_new_repeated_data'): ('int', 'bool'),
 ('ReceiverComSpec', 'network_representation'): (),
 ('ReceiverComSpec', 'reception_props'): (),
 ('ReceiverComSpec', 'replace_with'): ('VariableAccess',),
 ('ReceiverComSpec', 'sync_counter_init'): ('int', 'bool'),
 ('ReceiverComSpec', 'transformation_com_spec_props'): ('EndToEndTransformationComSpecProps', 'list:EndToEndTransformationComSpecProps'),
 ('ReceptionComSpecProps', 'data_update_period'): ('int', 'float', 'str', 'bool'),
 ('ReceptionComSpecProps', 'timeout'): ('int', 'float', 'str', 'bool'),
 ('RequirePortPrototype', 'com_spec'): ('ClientComSpec',
                                        'ModeSwitchReceiverComSpec',
                                        'NonqueuedReceiverComSpec',
                                        'NvRequireComSpec',
                                        'ParameterRequireComSpec',
                                        'QueuedReceiverComSpec',
                                        'list:ClientComSpec',
                                        'list:ModeSwitchReceiverComSpec',
                                        'list:NonqueuedReceiverComSpec',
                                        'list:NvRequireComSpec',
                                        'list:ParameterRequireComSpec',
                                        'list:QueuedReceiverComSpec'),
 ('RequirePortPrototype', 'port_interface_ref'): (),
 ('RteEvent', 'start_on_event'): ('str',),
 ('RunnableEntity', 'argument'): ('RunnableEntityArgument', 'str', 'list:RunnableEntityArgument'),
 ('RunnableEntity', 'async_server_call_result_point'): ('AsynchronousServerCallResultPoint',
                                                        'str',
                                                        'list:AsynchronousServerCallResultPoint'),
 ('RunnableEntity', 'data_read_access'): ('VariableAccess', 'str', 'list:VariableAccess'),
 ('RunnableEntity', 'data_receive_point_by_argument'): ('VariableAccess', 'str', 'list:VariableAccess'),
 ('RunnableEntity', 'data_receive_point_by_value'): ('VariableAccess', 'str', 'list:VariableAccess'),
 ('RunnableEntity', 'data_send_point'): ('VariableAccess', 'str', 'list:VariableAccess'),
 ('RunnableEntity', 'data_write_access'): ('VariableAccess', 'str', 'list:VariableAccess'),
 ('RunnableEntity', 'external_triggering_point'): ('ExternalTriggeringPoint', 'str', 'list:ExternalTriggeringPoint'),
 ('RunnableEntity', 'internal_triggering_point'): ('InternalTriggeringPoint', 'str', 'list:InternalTriggeringPoint'),
 ('RunnableEntity', 'mode_access_point'): ('ModeAccessPoint', 'str', 'list:ModeAccessPoint'),
 ('RunnableEntity', 'mode_switch_point'): ('ModeSwitchPoint', 'str', 'list:ModeSwitchPoint'),
 ('RunnableEntity', 'parameter_access'): ('ParameterAccess', 'str', 'list:ParameterAccess'),
 ('RunnableEntity', 'read_local_variable'): ('VariableAccess', 'str', 'list:VariableAccess'),
 ('RunnableEntity', 'server_call_point'): ('AsynchronousServerCallPoint',
                                           'SynchronousServerCallPoint',
                                           'str',
                                           'list:AsynchronousServerCallPoint',
                                           'list:SynchronousServerCallPoint'),
 ('RunnableEntity', 'symbol'): ('str',),
 ('RunnableEntity', 'wait_point'): ('WaitPoint', 'str', 'list:WaitPoint'),
 ('RunnableEntity', 'write_local_variable'): ('VariableAccess', 'str', 'list:VariableAccess'),
 ('RunnableEntityArgument', 'symbol'): ('str',),
 ('SenderComSpec', 'data_element_ref'): (),
 ('SenderComSpec', 'handle_out_of_range'): (),
 ('SenderComSpec', 'network_representation'): (),
 ('SenderComSpec', 'tranmsission_props'): (),
 ('SenderComSpec', 'transmission_acknowledge'): ('int', 'float', 'bool'),
 ('SenderReceiverInterface', 'invalidation_policies'): ('InvalidationPolicy', 'list:InvalidationPolicy'),
 ('ServerCallPoint', 'operation'): (),
 ('ServerCallPoint', 'timeout'): ('int', 'float', 'str', 'bool'),
 ('ServerComSpec', 'operation_ref'): ('str',),
 ('ServerComSpec', 'queue_length'): ('int', 'bool'),
 ('ServerComSpec', 'transformation_com_spec_props'): ('EndToEndTransformationComSpecProps', 'list:EndToEndTransformationComSpecProps'),
 ('SingleLanguageUnitNames', 'parts'): ('str', 'Subscript', 'Superscript', 'list:str', 'list:Subscript', 'list:Superscript'),
 ('SwAxisCont', 'category'): (),
 ('SwAxisCont', 'sw_array_size'): ('ValueList',),
 ('SwAxisCont', 'sw_axis_index'): ('int', 'str', 'bool'),
 ('SwAxisCont', 'sw_values_phys'): ('SwValues', 'ValueGroup'),
 ('SwAxisCont', 'unit_display_name'): (),
 ('SwAxisCont', 'unit_ref'): ('UnitRef',),
 ('SwBitRepresentation', 'num_bits'): ('int', 'float', 'str', 'bool'),
 ('SwBitRepresentation', 'position'): ('int', 'float', 'str', 'bool'),
 ('SwComponentPrototype', 'type_ref'): (),
 ('SwComponentType', 'ports'): ('PRPortPrototype',
                                'ProvidePortPrototype',
                                'RequirePortPrototype',
                                'list:PRPortPrototype',
                                'list:ProvidePortPrototype',
                                'list:RequirePortPrototype'),
 ('SwDataDefProps', 'variants'): ('SwDataDefPropsConditional', 'list:SwDataDefPropsConditional'),
 ('SwDataDefPropsConditional', 'alignment'): ('int', 'str', 'bool'),
 ('SwDataDefPropsConditional', 'annotations'): ('str',),
 ('SwDataDefPropsConditional', 'base_type_ref'): ('str',),
 ('SwDataDefPropsConditional', 'bit_representation'): (),
 ('SwDataDefPropsConditional', 'calibration_access'): (),
 ('SwDataDefPropsConditional', 'compu_method_ref'): ('str',),
 ('SwDataDefPropsConditional', 'data_constraint_ref'): ('str',),
 ('SwDataDefPropsConditional', 'display_format'): ('int', 'str', 'bool'),
 ('SwDataDefPropsConditional', 'display_presentation'): (),
 ('SwDataDefPropsConditional', 'impl_data_type_ref'): ('str',),
 ('SwDataDefPropsConditional', 'impl_policy'): (),
 ('SwDataDefPropsConditional', 'intended_resolution'): ('int', 'float', 'bool'),
 ('SwDataDefPropsConditional', 'ptr_target_props'): (),
 ('SwDataDefPropsConditional', 'step_size'): ('int', 'float', 'str', 'bool'),
 ('SwDataDefPropsConditional', 'sw_addr_method_ref'): ('str',),
 ('SwDataDefPropsConditional', 'text_props'): (),
 ('SwDataDefPropsConditional', 'unit_ref'): ('str', 'UnitRef'),
 ('SwPointerTargetProps', 'function_ptr_signature_ref'): ('str',),
 ('SwPointerTargetProps', 'sw_data_def_props'): ('SwDataDefPropsConditional',),
 ('SwTextProps', 'array_size_semantics'): (),
 ('SwTextProps', 'base_type_ref'): ('str',),
 ('SwTextProps', 'fill_char'): ('int', 'float', 'str', 'bool'),
 ('SwTextProps', 'max_text_size'): ('int', 'float', 'str', 'bool'),
 ('SwValueCont', 'sw_array_size'): ('ValueList',),
 ('SwValueCont', 'sw_values_phys'): ('SwValues', 'ValueGroup'),
 ('SwValueCont', 'unit_display_name'): (),
 ('SwValueCont', 'unit_ref'): ('UnitRef',),
 ('SwValues', 'values'): ('int',
                          'float',
                          'str',
                          'bool',
                          'NumericalValue',
                          'SwValues',
                          'ValueGroup',
                          'list:int',
                          'list:float',
                          'list:str',
                          'list:bool',
                          'list:NumericalValue',
                          'list:ValueGroup'),
 ('SwcImplementation', 'behavior_ref'): ('str',),
 ('SwcImplementation', 'code_descriptors'): ('Code', 'str', 'list:Code'),
 ('SwcImplementation', 'required_rte_vendor'): ('str',),
 ('SwcInternalBehavior', 'events'): ('AsynchronousServerCallReturnsEvent',
                                     'BackgroundEvent',
                                     'DataReceiveErrorEvent',
                                     'DataReceivedEvent',
                                     'DataSendCompletedEvent',
                                     'DataWriteCompletedEvent',
                                     'ExternalTriggerOccurredEvent',
                                     'InitEvent',
                                     'InternalTriggerOccurredEvent',
                                     'ModeSwitchedAckEvent',
                                     'OperationInvokedEvent',
                                     'SwcModeManagerErrorEvent',
                                     'SwcModeSwitchEvent',
                                     'TimingEvent',
                                     'TransformerHardErrorEvent',
                                     'str',
                                     'list:AsynchronousServerCallReturnsEvent',
                                     'list:BackgroundEvent',
                                     'list:DataReceiveErrorEvent',
                                     'list:DataReceivedEvent',
                                     'list:DataSendCompletedEvent',
                                     'list:DataWriteCompletedEvent',
                                     'list:ExternalTriggerOccurredEvent',
                                     'list:InitEvent',
                                     'list:InternalTriggerOccurredEvent',
                                     'list:ModeSwitchedAckEvent',
                                     'list:OperationInvokedEvent',
                                     'list:SwcModeManagerErrorEvent',
                                     'list:SwcModeSwitchEvent',
                                     'list:TimingEvent',
                                     'list:TransformerHardErrorEvent'),
 ('SwcInternalBehavior', 'port_api_options'): ('str',),
 ('SwcInternalBehavior', 'runnables'): ('RunnableEntity', 'str', 'list:RunnableEntity'),
 ('SwcModeManagerErrorEvent', 'mode_group'): (),
 ('SwcModeManagerErrorEvent', 'start_on_event'): ('str',),
 ('SwcModeSwitchEvent', 'activation'): (),
 ('SwcModeSwitchEvent', 'mode'): ('RModeInAtomicSwcInstanceRef',),
 ('SwcModeSwitchEvent', 'start_on_event'): ('str',),
 ('SynchronousServerCallPoint', 'called_from_within_exclusive_area'): ('str', 'ExclusiveAreaNestingOrderRef'),
 ('TimingEvent', 'offset'): ('int', 'float', 'str', 'bool'),
 ('TimingEvent', 'period'): ('int', 'float', 'str', 'bool'),
 ('TimingEvent', 'start_on_event'): ('str',),
 ('TransformerHardErrorEvent', 'operation'): (),
 ('TransformerHardErrorEvent', 'required_trigger'): (),
 ('TransformerHardErrorEvent', 'start_on_event'): ('str',),
 ('TransformerHardErrorEvent', 'trigger'): (),
 ('TransmissionAcknowledgementRequest', 'timeout'): ('int', 'float', 'str', 'bool'),
 ('TransmissionComSpecProps', 'data_update_period'): ('int', 'float', 'str', 'bool'),
 ('TransmissionComSpecProps', 'minimum_send_interval'): ('int', 'float', 'str', 'bool'),
 ('TransmissionComSpecProps', 'transmission_mode'): (),
 ('Unit', 'display_name'): ('str',),
 ('Unit', 'factor'): ('int', 'float', 'str', 'bool'),
 ('Unit', 'offset'): ('int', 'float', 'str', 'bool'),
 ('Unit', 'physical_dimension_ref'): ('str',),
 ('ValueGroup', 'label'): ('str', 'LanguageLongName'),
 ('ValueGroup', 'values'): ('int',
                            'float',
                            'str',
                            'bool',
                            'NumericalValue',
                            'SwValues',
                            'ValueGroup',
                            'list:int',
                            'list:float',
                            'list:str',
                            'list:bool',
                            'list:NumericalValue',
                            'list:ValueGroup'),
 ('ValueList', 'values'): ('int', 'float', 'bool', 'str', 'list:int', 'list:float', 'list:bool', 'list:NumericalValue'),
 ('VariableAccess', 'accessed_variable'): (),
 ('VariableAccess', 'scope'): (),
 ('VariableDataPrototype', 'init_value'): ('ApplicationValueSpecification',
                                           'ArrayValueSpecification',
                                           'ConstantReference',
                                           'NotAvailableValueSpecification',
                                           'NumericalValueSpecification',
                                           'RecordValueSpecification',
                                           'TextValueSpecification'),
 ('VariableInAtomicSWCTypeInstanceRef', 'port_prototype_ref'): (),
 ('VariableInAtomicSWCTypeInstanceRef', 'root_variable_data_prototype_ref'): ('str',),
 ('VariableInAtomicSWCTypeInstanceRef', 'target_data_prototype_ref'): ('ApplicationCompositeElementDataPrototypeRef',),
 ('WaitPoint', 'timeout'): ('int', 'float', 'str', 'bool'),
 ('WaitPoint', 'trigger'): ()}

# numbers that are not negative: others raise ValueError
NATURAL = [('ApplicationArrayElement', 'max_number_of_elements'),
 ('EndToEndTransformationComSpecProps', 'max_delta_counter'),
 ('EndToEndTransformationComSpecProps', 'max_error_state_init'),
 ('EndToEndTransformationComSpecProps', 'max_error_state_invalid'),
 ('EndToEndTransformationComSpecProps', 'max_error_state_valid'),
 ('EndToEndTransformationComSpecProps', 'max_no_new_repeated_data'),
 ('EndToEndTransformationComSpecProps', 'min_ok_state_init'),
 ('EndToEndTransformationComSpecProps', 'min_ok_state_invalid'),
 ('EndToEndTransformationComSpecProps', 'min_ok_state_valid'),
 ('EndToEndTransformationComSpecProps', 'sync_counter_init'),
 ('EndToEndTransformationComSpecProps', 'window_size'),
 ('EndToEndTransformationComSpecProps', 'window_size_init'),
 ('EndToEndTransformationComSpecProps', 'window_size_invalid'),
 ('EndToEndTransformationComSpecProps', 'window_size_valid'),
 ('ExecutableEntityActivationReason', 'bit_position'),
 ('ImplementationDataTypeElement', 'array_size'),
 ('ModeDeclaration', 'value'),
 ('ModeDeclarationGroup', 'on_transition_value'),
 ('ModeSwitchSenderComSpec', 'queue_length'),
 ('NotAvailableValueSpecification', 'default_pattern'),
 ('PositiveIntegerValue', 'value'),
 ('QueuedReceiverComSpec', 'queue_length'),
 ('ReceiverComSpec', 'max_delta_counter_init'),
 ('ReceiverComSpec', 'max_no_new_repeated_data'),
 ('ReceiverComSpec', 'sync_counter_init'),
 ('ServerComSpec', 'queue_length')]
