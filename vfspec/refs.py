"""Frozen: kinds of elements a reference can point to; the first one is the default if the second item is True."""
REFS = {
    'SwBaseTypeRef': ('SW_BASE_TYPE', 'SW_BASE_TYPE'),
    'PackageRef': ('AR_PACKAGE', 'AR_PACKAGE'),
    'CompuMethodRef': ('COMPU_METHOD', 'COMPU_METHOD'),
    'FunctionPtrSignatureRef': ('BSW_MODULE_ENTRY', 'BSW_MODULE_ENTRY'),
    'ImplementationDataTypeRef': ('IMPLEMENTATION_DATA_TYPE', 'IMPLEMENTATION_DATA_TYPE'),
    'SwAddrMethodRef': ('SW_ADDR_METHOD', 'SW_ADDR_METHOD'),
    'DataConstraintRef': ('DATA_CONSTR', 'DATA_CONSTR'),
    'PhysicalDimensionRef': ('PHYSICAL_DIMENSION', 'PHYSICAL_DIMENSION'),
    'UnitRef': ('UNIT', 'UNIT'),
    'IndexDataTypeRef': ('APPLICATION_PRIMITIVE_DATA_TYPE', 'APPLICATION_PRIMITIVE_DATA_TYPE'),
    'ApplicationDataTypeRef': (None, 'APPLICATION_ARRAY_DATA_TYPE APPLICATION_COMPOSITE_DATA_TYPE APPLICATION_DATA_TYPE APPLICATION_DEFERRED_DATA_TYPE APPLICATION_PRIMITIVE_DATA_TYPE APPLICATION_RECORD_DATA_TYPE'),
    'ApplicationCompositeElementDataPrototypeRef': (None, 'APPLICATION_ARRAY_ELEMENT APPLICATION_COMPOSITE_ELEMENT_DATA_PROTOTYPE APPLICATION_RECORD_ELEMENT'),
    'AutosarDataTypeRef': (None, 'ABSTRACT_IMPLEMENTATION_DATA_TYPE APPLICATION_ARRAY_DATA_TYPE APPLICATION_COMPOSITE_DATA_TYPE APPLICATION_DATA_TYPE APPLICATION_DEFERRED_DATA_TYPE APPLICATION_PRIMITIVE_DATA_TYPE APPLICATION_RECORD_DATA_TYPE AUTOSAR_DATA_TYPE IMPLEMENTATION_DATA_TYPE'),
    'ConstantRef': ('CONSTANT_SPECIFICATION', 'CONSTANT_SPECIFICATION'),
    'VariableDataPrototypeRef': ('VARIABLE_DATA_PROTOTYPE', 'VARIABLE_DATA_PROTOTYPE'),
    'ParameterDataPrototypeRef': ('PARAMETER_DATA_PROTOTYPE', 'PARAMETER_DATA_PROTOTYPE'),
    'ApplicationErrorRef': ('APPLICATION_ERROR', 'APPLICATION_ERROR'),
    'ModeDeclarationRef': ('MODE_DECLARATION', 'MODE_DECLARATION'),
    'ModeDeclarationGroupRef': ('MODE_DECLARATION_GROUP', 'MODE_DECLARATION_GROUP'),
    'ModeDeclarationGroupPrototypeRef': ('MODE_DECLARATION_GROUP_PROTOTYPE', 'MODE_DECLARATION_GROUP_PROTOTYPE'),
    'AutosarDataPrototypeRef': (None, 'ARGUMENT_DATA_PROTOTYPE PARAMETER_DATA_PROTOTYPE VARIABLE_DATA_PROTOTYPE'),
    'E2EProfileCompatibilityPropsRef': ('E2E_PROFILE_COMPATIBILITY_PROPS', 'E2E_PROFILE_COMPATIBILITY_PROPS'),
    'ClientServerOperationRef': ('CLIENT_SERVER_OPERATION', 'CLIENT_SERVER_OPERATION'),
    'PortPrototypeRef': (None, 'ABSTRACT_PROVIDED_PORT_PROTOTYPE ABSTRACT_REQUIRED_PORT_PROTOTYPE PR_PORT_PROTOTYPE P_PORT_PROTOTYPE R_PORT_PROTOTYPE'),
    'AbstractImplementationDataTypeElementRef': (None, 'ABSTRACT_IMPLEMENTATION_DATA_TYPE_ELEMENT IMPLEMENTATION_DATA_TYPE_ELEMENT'),
    'DataPrototypeRef': (None, 'APPLICATION_ARRAY_ELEMENT APPLICATION_COMPOSITE_ELEMENT_DATA_PROTOTYPE APPLICATION_RECORD_ELEMENT ARGUMENT_DATA_PROTOTYPE AUTOSAR_DATA_PROTOTYPE DATA_PROTOTYPE PARAMETER_DATA_PROTOTYPE VARIABLE_DATA_PROTOTYPE'),
    'PortInterfaceRef': (None, 'CLIENT_SERVER_INTERFACE MODE_SWITCH_INTERFACE NV_DATA_INTERFACE PARAMETER_INTERFACE SENDER_RECEIVER_INTERFACE'),
    'SwComponentTypeRef': (None, 'APPLICATION_SW_COMPONENT_TYPE COMPOSITION_SW_COMPONENT_TYPE'),
    'SwComponentPrototypeRef': ('SW_COMPONENT_PROTOTYPE', 'SW_COMPONENT_PROTOTYPE'),
    'SwcInternalBehaviorRef': ('SWC_INTERNAL_BEHAVIOR', 'SWC_INTERNAL_BEHAVIOR'),
    'SwcImplementationRef': ('SWC_IMPLEMENTATION', 'SWC_IMPLEMENTATION'),
    'ExclusiveAreaRef': ('EXCLUSIVE_AREA', 'EXCLUSIVE_AREA'),
    'ExclusiveAreaNestingOrderRef': ('EXCLUSIVE_AREA_NESTING_ORDER', 'EXCLUSIVE_AREA_NESTING_ORDER'),
    'AbstractRequiredPortPrototypeRef': (None, 'ABSTRACT_REQUIRED_PORT_PROTOTYPE PR_PORT_PROTOTYPE R_PORT_PROTOTYPE'),
    'AbstractProvidedPortPrototypeRef': (None, 'ABSTRACT_PROVIDED_PORT_PROTOTYPE PR_PORT_PROTOTYPE P_PORT_PROTOTYPE'),
    'RunnableEntityRef': ('RUNNABLE_ENTITY', 'RUNNABLE_ENTITY'),
    'VariableAccessRef': ('VARIABLE_ACCESS', 'VARIABLE_ACCESS'),
    'ModeSwitchPointRef': ('MODE_SWITCH_POINT', 'MODE_SWITCH_POINT'),
    'AsynchronousServerCallPointRef': ('ASYNCHRONOUS_SERVER_CALL_POINT', 'ASYNCHRONOUS_SERVER_CALL_POINT'),
    'AsynchronousServerCallResultPointRef': ('ASYNCHRONOUS_SERVER_CALL_RESULT_POINT', 'ASYNCHRONOUS_SERVER_CALL_RESULT_POINT'),
    'TriggerRef': ('TRIGGER', 'TRIGGER'),
    'InternalTriggeringPointRef': ('INTERNAL_TRIGGERING_POINT', 'INTERNAL_TRIGGERING_POINT'),
    'RteEventRef': (None, 'ASYNCHRONOUS_SERVER_CALL_RETURNS_EVENT BACKGROUND_EVENT DATA_RECEIVED_EVENT DATA_RECEIVE_ERROR_EVENT DATA_SEND_COMPLETED_EVENT DATA_WRITE_COMPLETED_EVENT EXTERNAL_TRIGGER_OCCURRED_EVENT INIT_EVENT INTERNAL_TRIGGER_OCCURRED_EVENT MODE_SWITCHED_ACK_EVENT OPERATION_INVOKED_EVENT SWC_MODE_MANAGER_ERROR_EVENT SWC_MODE_SWITCH_EVENT TIMING_EVENT TRANSFORMER_HARD_ERROR_EVENT'),
    'DataTypeMappingSetRef': ('DATA_TYPE_MAPPING_SET', 'DATA_TYPE_MAPPING_SET'),
    'ArgumentDataPrototypeRef': ('ARGUMENT_DATA_PROTOTYPE', 'ARGUMENT_DATA_PROTOTYPE'),
    'ApplicationArrayElementRef': ('APPLICATION_ARRAY_ELEMENT', 'APPLICATION_ARRAY_ELEMENT'),
    'ApplicationRecordElementRef': ('APPLICATION_RECORD_ELEMENT', 'APPLICATION_RECORD_ELEMENT'),
}
