"""Per-class writer/reader function pairs under contract: (class, writer method, reader method,
name of the tag parameter or None, tags the pair is proved for).  Generated once by
tools/freeze_codecs2.py and then frozen."""
CODECS = [
    ('MultiLanguageOverviewParagraph', '_write_multi_language_overview_paragraph', '_read_multi_language_overview_paragraph', 'tag', ('DESC',)),
    ('SwBaseTypeRef', '_write_sw_base_type_ref', '_read_sw_base_type_ref', None, ('BASE-TYPE-REF',)),
    ('CompuMethodRef', '_write_compu_method_ref', '_read_compu_method_ref', None, ('COMPU-METHOD-REF',)),
    ('FunctionPtrSignatureRef', '_write_function_ptr_signature_ref', '_read_function_ptr_signature_ref', None, ('FUNCTION-POINTER-SIGNATURE-REF',)),
    ('ImplementationDataTypeRef', '_write_impl_data_type_ref', '_read_impl_data_type_ref', 'tag', ('IMPLEMENTATION-DATA-TYPE-REF', 'VALUE-TYPE-TREF')),
    ('SwAddrMethodRef', '_write_sw_addr_method_ref', '_read_sw_addr_method_ref', None, ('SW-ADDR-METHOD-REF',)),
    ('DataConstraintRef', '_write_data_constraint_ref', '_read_data_constraint_ref', None, ('DATA-CONSTR-REF',)),
    ('PhysicalDimensionRef', '_write_physical_dimension_ref', '_read_physical_dimension_ref', None, ('PHYSICAL-DIMENSION-REF',)),
    ('UnitRef', '_write_unit_ref', '_read_unit_ref', None, ('UNIT-REF',)),
    ('IndexDataTypeRef', '_write_index_data_type_ref', '_read_index_data_type_ref', None, ('INDEX-DATA-TYPE-REF',)),
    ('ApplicationDataTypeRef', '_write_application_data_type_ref', '_read_application_data_type_ref', 'tag', ('APPLICATION-DATA-TYPE-REF', 'TYPE-TREF')),
    ('ApplicationCompositeElementDataPrototypeRef', '_write_appl_composite_element_data_proto_ref', '_read_appl_composite_element_data_proto_ref', 'tag', ('CONTEXT-DATA-PROTOTYPE-REF',)),
    ('AutosarDataTypeRef', '_write_autosar_data_type_ref', '_read_autosar_data_type_ref', 'tag', ('TYPE-TREF',)),
    ('ConstantRef', '_write_constant_ref', '_read_constant_ref', 'tag', ('CONSTANT-REF',)),
    ('VariableDataPrototypeRef', '_write_variable_data_prototype_ref', '_read_variable_data_prototype_ref', 'tag', ('DATA-ELEMENT-REF', 'LOCAL-VARIABLE-REF', 'ROOT-VARIABLE-DATA-PROTOTYPE-REF', 'TARGET-DATA-ELEMENT-REF', 'VARIABLE-REF')),
    ('ParameterDataPrototypeRef', '_write_parameter_data_prototype_ref', '_read_parameter_data_prototype_ref', 'tag', ('PARAMETER-REF',)),
    ('ApplicationErrorRef', '_write_application_error_ref', '_read_application_error_ref', 'tag', ('POSSIBLE-ERROR-REF',)),
    ('ModeDeclarationRef', '_write_mode_declaration_ref', '_read_mode_declaration_ref', 'tag', ('DEFAULT-MODE-REF', 'ENTERED-MODE-REF', 'EXITED-MODE-REF', 'INITIAL-MODE-REF', 'TARGET-MODE-DECLARATION-REF')),
    ('ModeDeclarationGroupRef', '_write_mode_declaration_group_ref', '_read_mode_declaration_group_ref', 'tag', ('MODE-GROUP-REF', 'TYPE-TREF')),
    ('ModeDeclarationGroupPrototypeRef', '_write_mode_declaration_group_prototype_ref', '_read_mode_declaration_group_prototype_ref', 'tag', ('CONTEXT-MODE-DECLARATION-GROUP-PROTOTYPE-REF', 'MODE-GROUP-REF', 'TARGET-MODE-GROUP-REF')),
    ('AutosarDataPrototypeRef', '_write_autosar_data_prototype_ref', '_read_autosar_data_prototype_ref', 'tag', ('DATA-ELEMENT-REF',)),
    ('E2EProfileCompatibilityPropsRef', '_write_e2e_profile_compatibility_props_ref', '_read_e2e_profile_compatibility_props_ref', None, ('E-2-E-PROFILE-COMPATIBILITY-PROPS-REF',)),
    ('ClientServerOperationRef', '_write_client_server_operation_ref', '_read_client_server_operation_ref', 'tag', ('OPERATION-REF', 'TARGET-PROVIDED-OPERATION-REF', 'TARGET-REQUIRED-OPERATION-REF')),
    ('PortPrototypeRef', '_write_port_prototype_ref', '_read_port_prototype_ref', 'tag', ('OUTER-PORT-REF', 'PORT-PROTOTYPE-REF', 'PORT-REF', 'PROVIDED-OUTER-PORT-REF', 'REQUIRED-OUTER-PORT-REF')),
    ('AbstractImplementationDataTypeElementRef', '_write_abstract_impl_data_type_element_ref', '_read_abstract_impl_data_type_element_ref', 'tag', ('CONTEXT-DATA-PROTOTYPE-REF', 'TARGET-DATA-PROTOTYPE-REF')),
    ('DataPrototypeRef', '_write_data_prototype_ref', '_read_data_prototype_ref', 'tag', ('LOCAL-PARAMETER-REF', 'ROOT-PARAMETER-DATA-PROTOTYPE-REF', 'TARGET-DATA-PROTOTYPE-REF')),
    ('PortInterfaceRef', '_write_port_interface_ref', '_read_port_interface_ref', 'tag', ('PROVIDED-INTERFACE-TREF', 'PROVIDED-REQUIRED-INTERFACE-TREF', 'REQUIRED-INTERFACE-TREF')),
    ('SwComponentTypeRef', '_write_sw_component_type_ref', '_read_sw_component_type_ref', 'tag', ('TYPE-TREF',)),
    ('SwComponentPrototypeRef', '_write_sw_component_prototype_ref', '_read_sw_component_prototype_ref', 'tag', ('CONTEXT-COMPONENT-REF',)),
    ('SwcInternalBehaviorRef', '_write_swc_internal_behavior_ref', '_read_swc_internal_behavior_ref', 'tag', ('BEHAVIOR-REF',)),
    ('ExclusiveAreaRef', '_write_exclusive_area_ref', '_read_exclusive_area_ref', 'tag', ('CAN-ENTER-EXCLUSIVE-AREA-REF', 'EXCLUSIVE-AREA-REF', 'RUNS-INSIDE-EXCLUSIVE-AREA-REF')),
    ('ExclusiveAreaNestingOrderRef', '_write_exclusive_area_nesting_order_ref', '_read_exclusive_area_nesting_order_ref', 'tag', ('CALLED-FROM-WITHIN-EXCLUSIVE-AREA-REF', 'EXCLUSIVE-AREA-NESTING-ORDER-REF')),
    ('AbstractRequiredPortPrototypeRef', '_write_abstract_required_port_prototype_ref', '_read_abstract_required_port_prototype_ref', 'tag', ('CONTEXT-PORT-REF', 'CONTEXT-R-PORT-REF')),
    ('AbstractProvidedPortPrototypeRef', '_write_abstract_provided_port_prototype_ref', '_read_abstract_provided_port_prototype_ref', 'tag', ('CONTEXT-P-PORT-REF',)),
    ('RunnableEntityRef', '_write_runnable_entity_ref', '_read_runnable_entity_ref', 'tag', ('START-ON-EVENT-REF',)),
    ('VariableAccessRef', '_write_variable_access_ref', '_read_variable_access_ref', 'tag', ('EVENT-SOURCE-REF',)),
    ('ModeSwitchPointRef', '_write_mode_switch_point_ref', '_read_mode_switch_point_ref', None, ('EVENT-SOURCE-REF',)),
    ('AsynchronousServerCallPointRef', '_write_async_server_call_point_ref', '_read_async_server_call_point_ref', None, ('ASYNCHRONOUS-SERVER-CALL-POINT-REF',)),
    ('AsynchronousServerCallResultPointRef', '_write_async_server_call_result_point_ref', '_read_async_server_call_result_point_ref', None, ('EVENT-SOURCE-REF',)),
    ('TriggerRef', '_write_trigger_ref', '_read_trigger_ref', 'tag', ('TARGET-TRIGGER-REF',)),
    ('InternalTriggeringPointRef', '_write_internal_triggering_point_ref', '_read_internal_triggering_point_ref', None, ('EVENT-SOURCE-REF',)),
    ('RteEventRef', '_write_rte_event_ref', '_read_rte_event_ref', 'tag', ('TRIGGER-REF',)),
    ('DataTypeMappingSetRef', '_write_data_type_mapping_set_ref', '_read_data_type_mapping_set_ref', 'tag', ('DATA-TYPE-MAPPING-REF',)),
    ('ArgumentDataPrototypeRef', '_write_argument_data_prototype_ref', '_read_argument_data_prototype_ref', 'tag', ('X-REF',)),
    ('ApplicationArrayElementRef', '_write_application_array_element_ref', '_read_application_array_element_ref', None, ('APPLICATION-ARRAY-ELEMENT-REF',)),
    ('ApplicationRecordElementRef', '_write_application_record_element_ref', '_read_application_record_element_ref', 'tag', ('X-REF',)),
    ('DataFilter', '_write_data_filter', '_read_data_filter', 'tag', ('DATA-FILTER', 'FILTER')),
    ('AutosarEngineeringObject', '_write_autosar_engineering_object', '_read_autosar_engineering_object', 'tag', ('AUTOSAR-ENGINEERING-OBJECT',)),
    ('Code', '_write_code', '_read_code', None, ('CODE',)),
    ('Break', '_write_break', '_read_break', None, ('BR',)),
    ('EmphasisText', '_write_emphasis_text', '_read_emphasis_text', None, ('E',)),
    ('IndexEntry', '_write_index_entry', '_read_index_entry', None, ('IE',)),
    ('TechnicalTerm', '_write_technical_term', '_read_technical_term', None, ('TT',)),
    ('Subscript', '_write_subscript', '_read_subscript', None, ('SUB',)),
    ('Superscript', '_write_superscript', '_read_superscript', None, ('SUP',)),
    ('LanguageLongName', '_write_language_long_name', '_read_language_long_name', None, ('L-4',)),
    ('MultilanguageLongName', '_write_multi_language_long_name', '_read_multi_language_long_name', 'tag', ('LABEL', 'LONG-NAME')),
    ('LanguageOverviewParagraph', '_write_language_overview_paragraph', '_read_language_overview_paragraph', None, ('L-2',)),
    ('LanguageParagraph', '_write_language_paragraph', '_read_language_paragraph', None, ('L-1',)),
    ('MultiLanguageParagraph', '_write_multi_language_paragraph', '_read_multi_language_paragraph', None, ('P',)),
    ('LanguageVerbatim', '_write_language_verbatim', '_read_language_verbatim', None, ('L-5',)),
    ('MultiLanguageVerbatim', '_write_multi_language_verbatim', '_read_multi_language_verbatim', None, ('VERBATIM',)),
    ('SingleLanguageUnitNames', '_write_single_language_unit_names', '_read_single_language_unit_names', 'tag', ('DISPLAY-NAME', 'UNIT-DISPLAY-NAME')),
    ('DocumentationBlock', '_write_documentation_block', '_read_documentation_block', 'tag', ('ANNOTATION-TEXT', 'INTRODUCTION')),
    ('Annotation', '_write_annotation', '_read_annotation', None, ('ANNOTATION',)),
    ('CompuRational', '_write_compu_rational', '_read_compu_rational', None, ('COMPU-RATIONAL-COEFFS',)),
    ('CompuConst', '_write_compu_const', '_read_compu_const', 'tag', ('COMPU-CONST', 'COMPU-DEFAULT-VALUE', 'COMPU-INVERSE-VALUE')),
    ('CompuScale', '_write_compu_scale', '_read_compu_scale', None, ('COMPU-SCALE',)),
    ('Computation', '_write_computation', '_read_computation', 'tag', ('COMPU-INTERNAL-TO-PHYS', 'COMPU-PHYS-TO-INTERNAL')),
    ('CompuMethod', '_write_compu_method', '_read_compu_method', None, ('COMPU-METHOD',)),
    ('ScaleConstraint', '_write_scale_constraint', '_read_scale_constraint', None, ('SCALE-CONSTR',)),
    ('InternalConstraint', '_write_internal_constraint', '_read_internal_constraint', None, ('INTERNAL-CONSTRS',)),
    ('PhysicalConstraint', '_write_physical_constraint', '_read_physical_constraint', None, ('PHYS-CONSTRS',)),
    ('DataConstraintRule', '_write_data_constraint_rule', '_read_data_constraint_rule', None, ('DATA-CONSTR-RULE',)),
    ('DataConstraint', '_write_data_constraint', '_read_data_constraint', None, ('DATA-CONSTR',)),
    ('Unit', '_write_unit', '_read_unit', None, ('UNIT',)),
    ('SwBaseType', '_write_sw_base_type', '_read_sw_base_type', None, ('SW-BASE-TYPE',)),
    ('SwBitRepresentation', '_write_sw_bit_represenation', '_read_sw_bit_representation', None, ('SW-BIT-REPRESENTATION',)),
    ('SwTextProps', '_write_sw_text_props', '_read_sw_text_props', None, ('SW-TEXT-PROPS',)),
    ('SwPointerTargetProps', '_write_sw_pointer_target_props', '_read_sw_pointer_target_props', None, ('SW-POINTER-TARGET-PROPS',)),
    ('SwDataDefPropsConditional', '_write_sw_data_def_props_conditional', '_read_sw_data_def_props_conditional', None, ('SW-DATA-DEF-PROPS-CONDITIONAL',)),
    ('SwDataDefProps', '_write_sw_data_def_props', '_read_sw_data_def_props', 'tag', ('NETWORK-REPRESENTATION', 'SW-DATA-DEF-PROPS')),
    ('SymbolProps', '_write_symbol_props', '_read_symbol_props', 'tag', ('SYMBOL-PROPS',)),
    ('ImplementationDataTypeElement', '_write_implementation_data_type_element', '_read_implementation_data_type_element', None, ('IMPLEMENTATION-DATA-TYPE-ELEMENT',)),
    ('ImplementationDataType', '_write_implementation_data_type', '_read_implementation_data_type', None, ('IMPLEMENTATION-DATA-TYPE',)),
    ('VariableDataPrototype', '_write_variable_data_prototype', '_read_variable_data_prototype', 'tag', ('VARIABLE-DATA-PROTOTYPE',)),
    ('ParameterDataPrototype', '_write_parameter_data_prototype', '_read_parameter_data_prototype', 'tag', ('PARAMETER-DATA-PROTOTYPE',)),
    ('ArgumentDataPrototype', '_write_argument_data_prototype', '_read_argument_data_prototype', None, ('ARGUMENT-DATA-PROTOTYPE',)),
    ('ApplicationPrimitiveDataType', '_write_application_primitive_data_type', '_read_application_primitive_data_type', None, ('APPLICATION-PRIMITIVE-DATA-TYPE',)),
    ('ApplicationArrayElement', '_write_application_array_element', '_read_application_array_element', None, ('ELEMENT',)),
    ('ApplicationArrayDataType', '_write_application_array_data_type', '_read_application_array_data_type', None, ('APPLICATION-ARRAY-DATA-TYPE',)),
    ('ApplicationRecordElement', '_write_application_record_element', '_read_application_record_element', None, ('APPLICATION-RECORD-ELEMENT',)),
    ('ApplicationRecordDataType', '_write_application_record_data_type', '_read_application_record_data_type', None, ('APPLICATION-RECORD-DATA-TYPE',)),
    ('DataTypeMap', '_write_data_type_map', '_read_data_type_map', None, ('DATA-TYPE-MAP',)),
    ('DataTypeMappingSet', '_write_data_type_mapping_set', '_read_data_type_mapping_set', None, ('DATA-TYPE-MAPPING-SET',)),
    ('ValueList', '_write_value_list', '_read_value_list', None, ('SW-ARRAYSIZE',)),
    ('SwAddrMethod', '_write_sw_addr_method', '_read_sw_addr_method', None, ('SW-ADDR-METHOD',)),
    ('ValueGroup', '_write_value_group', '_read_value_group', 'tag', ('VG',)),
    ('SwValues', '_write_sw_values', '_read_sw_values', None, ('SW-VALUES-PHYS',)),
    ('SwAxisCont', '_write_sw_axis_cont', '_read_sw_axis_cont', None, ('SW-AXIS-CONT',)),
    ('SwValueCont', '_write_sw_value_cont', '_read_sw_value_cont', None, ('SW-VALUE-CONT',)),
    ('TextValueSpecification', '_write_text_value_specification', '_read_text_value_specification', None, ('TEXT-VALUE-SPECIFICATION',)),
    ('NumericalValueSpecification', '_write_numerical_value_specification', '_read_numerical_value_specification', None, ('NUMERICAL-VALUE-SPECIFICATION',)),
    ('NotAvailableValueSpecification', '_write_not_available_value_specification', '_read_not_available_value_specification', None, ('NOT-AVAILABLE-VALUE-SPECIFICATION',)),
    ('ArrayValueSpecification', '_write_array_value_specification', '_read_array_value_specification', None, ('ARRAY-VALUE-SPECIFICATION',)),
    ('RecordValueSpecification', '_write_record_value_specification', '_read_record_value_specification', None, ('RECORD-VALUE-SPECIFICATION',)),
    ('ApplicationValueSpecification', '_write_application_value_specification', '_read_application_value_specification', None, ('APPLICATION-VALUE-SPECIFICATION',)),
    ('ConstantSpecification', '_write_constant_specification', '_read_constant_specification', None, ('CONSTANT-SPECIFICATION',)),
    ('ConstantReference', '_write_constant_reference', '_read_constant_reference', None, ('CONSTANT-REFERENCE',)),
    ('Package', '_write_package', '_read_package', None, ('AR-PACKAGE',)),
    ('ModeDeclaration', '_write_mode_declaration', '_read_mode_declaration', None, ('MODE-DECLARATION',)),
    ('ModeErrorBehavior', '_write_mode_error_behavior', '_read_mode_error_behavior', 'tag', ('MODE-MANAGER-ERROR-BEHAVIOR', 'MODE-USER-ERROR-BEHAVIOR')),
    ('ModeTransition', '_write_mode_transition', '_read_mode_transition', None, ('MODE-TRANSITION',)),
    ('ModeDeclarationGroup', '_write_mode_declaration_group', '_read_mode_declaration_group', None, ('MODE-DECLARATION-GROUP',)),
    ('ModeDeclarationGroupPrototype', '_write_mode_declaration_group_prototype', '_read_mode_declaration_group_prototype', 'tag', ('MODE-DECLARATION-GROUP-PROTOTYPE', 'MODE-GROUP')),
    ('ModeRequestTypeMap', '_write_mode_request_type_map', '_read_mode_request_type_map', None, ('MODE-REQUEST-TYPE-MAP',)),
    ('InvalidationPolicy', '_write_invalidation_policy', '_read_invalidation_policy', None, ('INVALIDATION-POLICY',)),
    ('SenderReceiverInterface', '_write_sender_receiver_interface', '_read_sender_receiver_interface', None, ('SENDER-RECEIVER-INTERFACE',)),
    ('NvDataInterface', '_write_nv_data_interface', '_read_nv_data_interface', None, ('NV-DATA-INTERFACE',)),
    ('ParameterInterface', '_write_parameter_interface', '_read_parameter_interface', None, ('PARAMETER-INTERFACE',)),
    ('ApplicationError', '_write_application_error', '_read_application_error', None, ('APPLICATION-ERROR',)),
    ('ClientServerOperation', '_write_client_server_operation', '_read_client_server_operation', None, ('CLIENT-SERVER-OPERATION',)),
    ('ClientServerInterface', '_write_client_server_interface', '_read_client_server_interface', None, ('CLIENT-SERVER-INTERFACE',)),
    ('ModeSwitchInterface', '_write_mode_switch_interface', '_read_mode_switch_interface', None, ('MODE-SWITCH-INTERFACE',)),
    ('E2EProfileCompatibilityProps', '_write_e2e_profile_compatibility_props', '_read_e2e_profile_compatibility_props', None, ('E-2-E-PROFILE-COMPATIBILITY-PROPS',)),
    ('EndToEndTransformationComSpecProps', '_write_e2e_transformation_com_spec_props', '_read_e2e_transformation_com_spec_props', None, ('END-TO-END-TRANSFORMATION-COM-SPEC-PROPS',)),
    ('ModeSwitchedAckRequest', '_write_mode_switched_ack_request', '_read_mode_switched_ack_request', None, ('MODE-SWITCHED-ACK',)),
    ('TransmissionAcknowledgementRequest', '_write_transmission_acknowledgement_request', '_read_transmission_acknowledgement_request', None, ('TRANSMISSION-ACKNOWLEDGE',)),
    ('TransmissionComSpecProps', '_write_tranmsission_com_spec_props', '_read_tranmsission_com_spec_props', None, ('TRANSMISSION-PROPS',)),
    ('ModeSwitchSenderComSpec', '_write_mode_switch_sender_com_spec', '_read_mode_switch_sender_com_spec', None, ('MODE-SWITCH-SENDER-COM-SPEC',)),
    ('QueuedSenderComSpec', '_write_queued_sender_com_spec', '_read_queued_sender_com_spec', None, ('QUEUED-SENDER-COM-SPEC',)),
    ('NonqueuedSenderComSpec', '_write_non_queued_sender_com_spec', '_read_nonqueued_sender_com_spec', None, ('NONQUEUED-SENDER-COM-SPEC',)),
    ('NvProvideComSpec', '_write_nv_provide_com_spec', '_read_nv_provider_com_spec', None, ('NV-PROVIDE-COM-SPEC',)),
    ('ParameterProvideComSpec', '_write_parameter_provide_com_spec', '_read_parameter_provide_com_spec', None, ('PARAMETER-PROVIDE-COM-SPEC',)),
    ('ServerComSpec', '_write_server_com_spec', '_read_server_com_spec', None, ('SERVER-COM-SPEC',)),
    ('ReceptionComSpecProps', '_write_reception_com_spec_props', '_read_reception_com_spec_props', None, ('RECEPTION-PROPS',)),
    ('QueuedReceiverComSpec', '_write_queued_receiver_com_spec', '_read_queued_receiver_com_spec', None, ('QUEUED-RECEIVER-COM-SPEC',)),
    ('NonqueuedReceiverComSpec', '_write_nonqueued_receiver_com_spec', '_read_nonqueued_receiver_com_spec', None, ('NONQUEUED-RECEIVER-COM-SPEC',)),
    ('NvRequireComSpec', '_write_nv_require_com_spec', '_read_nv_require_com_spec', None, ('NV-REQUIRE-COM-SPEC',)),
    ('ParameterRequireComSpec', '_write_parameter_require_com_spec', '_read_parameter_require_com_spec', None, ('PARAMETER-REQUIRE-COM-SPEC',)),
    ('ModeSwitchReceiverComSpec', '_write_mode_switch_receiver_com_spec', '_read_mode_switch_receiver_com_spec', None, ('MODE-SWITCH-RECEIVER-COM-SPEC',)),
    ('ClientComSpec', '_write_client_com_spec', '_read_client_com_spec', None, ('CLIENT-COM-SPEC',)),
    ('ProvidePortPrototype', '_write_provide_port_prototype', '_read_provide_port_prototype', None, ('P-PORT-PROTOTYPE',)),
    ('RequirePortPrototype', '_write_require_port_prototype', '_read_require_port_prototype', None, ('R-PORT-PROTOTYPE',)),
    ('PRPortPrototype', '_write_pr_port_prototype', '_read_pr_port_prototype', None, ('PR-PORT-PROTOTYPE',)),
    ('ApplicationSoftwareComponentType', '_write_application_software_component_type', '_read_application_sw_component_type', None, ('APPLICATION-SW-COMPONENT-TYPE',)),
    ('SwComponentPrototype', '_write_sw_component_prototype', '_read_sw_component_prototype', None, ('SW-COMPONENT-PROTOTYPE',)),
    ('AssemblySwConnector', '_write_assembly_sw_connector', '_read_assembly_sw_connector', None, ('ASSEMBLY-SW-CONNECTOR',)),
    ('DelegationSwConnector', '_write_delegation_sw_connector', '_read_delegation_sw_connector', None, ('DELEGATION-SW-CONNECTOR',)),
    ('PassThroughSwConnector', '_write_passthrough_sw_connector', '_read_pass_through_sw_connector', None, ('PASS-THROUGH-SW-CONNECTOR',)),
    ('CompositionSwComponentType', '_write_composition_sw_component_type', '_read_composition_sw_component_type', None, ('COMPOSITION-SW-COMPONENT-TYPE',)),
    ('POperationInAtomicSwcInstanceRef', '_write_p_operation_in_atomic_swc_instance_ref', '_read_p_operation_in_atomic_swc_instance_ref', None, ('OPERATION-IREF',)),
    ('PModeGroupInAtomicSwcInstanceRef', '_write_p_mode_group_in_atomic_swc_instance_ref', '_read_p_mode_group_in_atomic_swc_instance_ref', 'tag', ('MODE-GROUP-IREF', 'P-MODE-GROUP-IN-ATOMIC-SWC-INSTANCE-REF')),
    ('PTriggerInAtomicSwcTypeInstanceRef', '_write_p_trigger_in_atomic_swc_instance_ref', '_read_p_trigger_in_atomic_swc_instance_ref', 'tag', ('TRIGGER-IREF',)),
    ('ROperationInAtomicSwcInstanceRef', '_write_r_operation_in_atomic_swc_instance_ref', '_read_r_operation_in_atomic_swc_instance_ref', None, ('OPERATION-IREF',)),
    ('RModeInAtomicSwcInstanceRef', '_write_r_mode_in_atomic_swc_instance_ref', '_read_r_mode_in_atomic_swc_instance_ref', 'tag', ('DISABLED-MODE-IREF', 'MODE-IREF')),
    ('RModeGroupInAtomicSwcInstanceRef', '_write_r_mode_group_in_atomic_swc_instance_ref', '_read_r_mode_group_in_atomic_swc_instance_ref', None, ('R-MODE-GROUP-IN-ATOMIC-SWC-INSTANCE-REF',)),
    ('RVariableInAtomicSwcInstanceRef', '_write_r_variable_in_atomic_swc_instance_ref', '_read_r_variable_in_atomic_swc_instance_ref', None, ('DATA-IREF',)),
    ('RTriggerInAtomicSwcInstanceRef', '_write_r_trigger_in_atomic_swc_instance_ref', '_read_r_trigger_in_atomic_swc_instance_ref', 'tag', ('REQUIRED-TRIGGER-IREF', 'TRIGGER-IREF')),
    ('ArVariableInImplementationDataInstanceRef', '_write_variable_in_impl_data_instance_ref', '_read_variable_in_impl_data_instance_ref', 'tag', ('AUTOSAR-VARIABLE-IN-IMPL-DATATYPE',)),
    ('VariableInAtomicSWCTypeInstanceRef', '_write_variable_in_atomic_swc_type_instance_ref', '_read_variable_in_atomic_swc_type_instance_ref', None, ('AUTOSAR-VARIABLE-IREF',)),
    ('AutosarVariableRef', '_write_autosar_variable_ref', '_read_autosar_variable_ref', 'tag', ('ACCESSED-VARIABLE',)),
    ('VariableAccess', '_write_variable_access', '_read_variable_access', 'tag', ('REPLACE-WITH', 'VARIABLE-ACCESS')),
    ('SwcImplementation', '_write_swc_implementation', '_read_swc_implementation', None, ('SWC-IMPLEMENTATION',)),
    ('ExecutableEntityActivationReason', '_write_executable_entity_activation_reason', '_read_executable_entity_activation_reason', None, ('EXECUTABLE-ENTITY-ACTIVATION-REASON',)),
    ('ExclusiveAreaRefConditional', '_write_exclusive_area_ref_conditional', '_read_exclusive_area_ref_conditional', None, ('EXCLUSIVE-AREA-REF-CONDITIONAL',)),
    ('RunnableEntityArgument', '_write_runnable_entity_argument', '_read_runnable_entity_argument', None, ('RUNNABLE-ENTITY-ARGUMENT',)),
    ('AsynchronousServerCallPoint', '_write_async_server_call_point', '_read_async_server_call_point', None, ('ASYNCHRONOUS-SERVER-CALL-POINT',)),
    ('AsynchronousServerCallResultPoint', '_write_async_server_call_result_point', '_read_async_server_call_result_point', None, ('ASYNCHRONOUS-SERVER-CALL-RESULT-POINT',)),
    ('SynchronousServerCallPoint', '_write_sync_server_call_point', '_read_sync_server_call_point', None, ('SYNCHRONOUS-SERVER-CALL-POINT',)),
    ('ExternalTriggeringPointIdent', '_write_external_triggering_point_ident', '_read_external_triggering_point_ident', None, ('IDENT',)),
    ('ExternalTriggeringPoint', '_write_external_triggering_point', '_read_external_triggering_point', None, ('EXTERNAL-TRIGGERING-POINT',)),
    ('InternalTriggeringPoint', '_write_internal_triggering_point', '_read_internal_triggering_point', None, ('INTERNAL-TRIGGERING-POINT',)),
    ('ModeAccessPointIdent', '_write_mode_access_point_ident', '_read_mode_access_point_ident', None, ('IDENT',)),
    ('ModeAccessPoint', '_write_mode_access_point', '_read_mode_access_point', None, ('MODE-ACCESS-POINT',)),
    ('ModeSwitchPoint', '_write_mode_switch_point', '_read_mode_switch_point', None, ('MODE-SWITCH-POINT',)),
    ('ParameterInAtomicSwcTypeInstanceRef', '_write_parameter_in_atomic_swc_type_instance_ref', '_read_parameter_in_atomic_swc_type_instance_ref', None, ('AUTOSAR-PARAMETER-IREF',)),
    ('AutosarParameterRef', '_write_autosar_parameter_ref', '_read_autosar_parameter_ref', 'tag', ('ACCESSED-PARAMETER',)),
    ('ParameterAccess', '_write_parameter_access', '_read_parameter_access', None, ('PARAMETER-ACCESS',)),
    ('WaitPoint', '_write_wait_point', '_read_wait_point', None, ('WAIT-POINT',)),
    ('RunnableEntity', '_write_runnable_entity', '_read_runnable_entity', None, ('RUNNABLE-ENTITY',)),
    ('AsynchronousServerCallReturnsEvent', '_write_async_server_call_returns_event', '_read_async_server_call_returns_event', None, ('ASYNCHRONOUS-SERVER-CALL-RETURNS-EVENT',)),
    ('BackgroundEvent', '_write_background_event', '_read_background_event', None, ('BACKGROUND-EVENT',)),
    ('DataReceiveErrorEvent', '_write_data_receive_error_event', '_read_data_receive_error_event', None, ('DATA-RECEIVE-ERROR-EVENT',)),
    ('DataReceivedEvent', '_write_data_received_event', '_read_data_received_event', None, ('DATA-RECEIVED-EVENT',)),
    ('DataSendCompletedEvent', '_write_data_send_completed_event', '_read_data_send_completed_event', None, ('DATA-SEND-COMPLETED-EVENT',)),
    ('DataWriteCompletedEvent', '_write_data_write_completed_event', '_read_data_write_completed_event', None, ('DATA-WRITE-COMPLETED-EVENT',)),
    ('ExternalTriggerOccurredEvent', '_write_external_trigger_occured_event', '_read_external_trigger_occured_event', None, ('EXTERNAL-TRIGGER-OCCURRED-EVENT',)),
    ('InitEvent', '_write_init_event', '_read_init_event', None, ('INIT-EVENT',)),
    ('InternalTriggerOccurredEvent', '_write_internal_trigger_occured_event', '_read_internal_trigger_occured_event', None, ('INTERNAL-TRIGGER-OCCURRED-EVENT',)),
    ('ModeSwitchedAckEvent', '_write_mode_switched_ack_event', '_read_mode_switched_ack_event', None, ('MODE-SWITCHED-ACK-EVENT',)),
    ('OperationInvokedEvent', '_write_operation_invoked_event', '_read_operation_invoked_event', None, ('OPERATION-INVOKED-EVENT',)),
    ('SwcModeManagerErrorEvent', '_write_swc_mode_manager_error_event', '_read_swc_mode_manager_error_event', None, ('SWC-MODE-MANAGER-ERROR-EVENT',)),
    ('SwcModeSwitchEvent', '_write_swc_mode_switch_event', '_read_swc_mode_switch_event', None, ('SWC-MODE-SWITCH-EVENT',)),
    ('TimingEvent', '_write_timing_event', '_read_timing_event', None, ('TIMING-EVENT',)),
    ('TransformerHardErrorEvent', '_write_transformer_hard_error_event', '_read_transformer_hard_error_event', None, ('TRANSFORMER-HARD-ERROR-EVENT',)),
    ('PortDefinedArgumentValue', '_write_port_defined_argument_value', '_read_port_defined_argument_value', None, ('PORT-DEFINED-ARGUMENT-VALUE',)),
    ('CommunicationBufferLocking', '_write_communication_buffer_locking', '_read_communication_buffer_locking', None, ('COMMUNICATION-BUFFER-LOCKING',)),
    ('PortApiOption', '_write_port_api_option', '_read_port_api_option', None, ('PORT-API-OPTION',)),
    ('ExclusiveArea', '_write_exclusive_area', '_read_exclusive_area', None, ('EXCLUSIVE-AREA',)),
    ('SwcInternalBehavior', '_write_swc_internal_behavior', '_read_swc_internal_behavior', None, ('SWC-INTERNAL-BEHAVIOR',)),
]
