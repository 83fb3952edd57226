"""The ARXML vocabulary of the enumerations: class -> member -> (text, schema versions or None for all),
and the additional texts the reader accepts. Frozen: judged against the AUTOSAR schema."""
ENUMS = {
    'ArgumentDirection': {
        'IN': ('IN', None),
        'INOUT': ('INOUT', None),
        'OUT': ('OUT', None),
    },
    'ArrayImplPolicy': {
        'PAYLOAD_AS_ARRAY': ('PAYLOAD-AS-ARRAY', (49, 50, 51)),
        'PAYLOAD_AS_POINTER_TO_ARRAY': ('PAYLOAD-AS-POINTER-TO-ARRAY', (49, 50, 51)),
    },
    'ArraySizeHandling': {
        'ALL_INDICES_DIFFERENT_ARRAY_SIZE': ('ALL-INDICES-DIFFERENT-ARRAY-SIZE', None),
        'ALL_INDICES_SAME_ARRAY_SIZE': ('ALL-INDICES-SAME-ARRAY-SIZE', None),
        'INHERITED_FROM_ARRAY_ELEMENT_TYPE_SIZE': ('INHERITED-FROM-ARRAY-ELEMENT-TYPE-SIZE', None),
    },
    'ArraySizeSemantics': {
        'FIXED_SIZE': ('FIXED-SIZE', None),
        'VARIABLE_SIZE': ('VARIABLE-SIZE', None),
    },
    'ByteOrder': {
        'BIG_ENDIAN': ('MOST-SIGNIFICANT-BYTE-FIRST', None),
        'LITTLE_ENDIAN': ('MOST-SIGNIFICANT-BYTE-LAST', None),
        'OPAQUE': ('OPAQUE', None),
    },
    'CalibrationAxisCategory': {
        'COM_AXIS': ('COM-AXIS', None),
        'CURVE_AXIS': ('CURVE-AXIS', None),
        'FIX_AXIS': ('FIX-AXIS', None),
        'RES_AXIS': ('RES-AXIS', None),
        'STD_AXIS': ('STD-AXIS', None),
    },
    'DataFilterType': {
        'ALWAYS': ('ALWAYS', None),
        'MASKED_NEW_DIFFERS_MASKED_OLD': ('MASKED-NEW-DIFFERS-MASKED-OLD', None),
        'MASKED_NEW_DIFFERS_X': ('MASKED-NEW-DIFFERS-X', None),
        'MASKED_NEW_EQUALS_X': ('MASKED-NEW-EQUALS-X', None),
        'NEVER': ('NEVER', None),
        'NEW_IS_OUTSIDE': ('NEW-IS-OUTSIDE', None),
        'NEW_IS_WITHIN': ('NEW-IS-WITHIN', None),
        'ONE_EVERY_N': ('ONE-EVERY-N', None),
    },
    'DataTransformationErrorHandling': {
        'NO_TRANSFORMER_ERROR_HANDLING': ('NO-TRANSFORMER-ERROR-HANDLING', None),
        'TRANSFORMER_ERROR_HANDLING': ('TRANSFORMER-ERROR-HANDLING', None),
    },
    'DataTransformationStatusForwarding': {
        'NO_TRANSFORMER_STATUS_FORWARDING': ('NO-TRANSFORMER-STATUS-FORWARDING', None),
        'TRANSFORMER_STATUS_FORWARDING': ('TRANSFORMER-STATUS-FORWARDING', None),
    },
    'DisplayPresentation': {
        'CONTINUOUS': ('PRESENTATION-CONTINUOUS', None),
        'DISCRETE': ('PRESENTATION-DISCRETE', None),
    },
    'EmphasisFont': {
        'DEFAULT': ('DEFAULT', None),
        'MONO': ('MONO', None),
    },
    'EmphasisType': {
        'BOLD': ('BOLD', None),
        'BOLDITALIC': ('BOLDITALIC', None),
        'ITALIC': ('ITALIC', None),
        'PLAIN': ('PLAIN', None),
    },
    'Float': {
        'FLOAT': ('FLOAT', None),
        'NO_FLOAT': ('NO-FLOAT', None),
    },
    'HandleInvalid': {
        'DONT_INVALIDATE': ('DONT-INVALIDATE', None),
        'EXTERNAL_REPLACEMENT': ('EXTERNAL-REPLACEMENT', None),
        'KEEP': ('KEEP', None),
        'REPLACE': ('REPLACE', None),
    },
    'HandleOutOfRange': {
        'DEFAULT': ('DEFAULT', None),
        'EXTERNAL_REPLACEMENT': ('EXTERNAL-REPLACEMENT', None),
        'IGNORE': ('IGNORE', None),
        'INVALID': ('INVALID', None),
        'NONE': ('NONE', None),
        'SATURATE': ('SATURATE', None),
    },
    'HandleOutOfRangeStatus': {
        'INDICATE': ('INDICATE', None),
        'SILENT': ('SILENT', None),
    },
    'HandleTimeout': {
        'NONE': ('NONE', None),
        'REPLACE': ('REPLACE', None),
        'REPLACE_BY_TIMEOUT_SUBSTITUTION_VALUE': ('REPLACE-BY-TIMEOUT-SUBSTITUTION-VALUE', None),
    },
    'IdentifiableSubTypes': {
        'ABSTRACT_IMPLEMENTATION_DATA_TYPE': ('ABSTRACT-IMPLEMENTATION-DATA-TYPE', None),
        'ABSTRACT_IMPLEMENTATION_DATA_TYPE_ELEMENT': ('ABSTRACT-IMPLEMENTATION-DATA-TYPE-ELEMENT', None),
        'ABSTRACT_PROVIDED_PORT_PROTOTYPE': ('ABSTRACT-PROVIDED-PORT-PROTOTYPE', None),
        'ABSTRACT_REQUIRED_PORT_PROTOTYPE': ('ABSTRACT-REQUIRED-PORT-PROTOTYPE', None),
        'APPLICATION_ARRAY_DATA_TYPE': ('APPLICATION-ARRAY-DATA-TYPE', None),
        'APPLICATION_ARRAY_ELEMENT': ('APPLICATION-ARRAY-ELEMENT', None),
        'APPLICATION_COMPOSITE_DATA_TYPE': ('APPLICATION-COMPOSITE-DATA-TYPE', None),
        'APPLICATION_COMPOSITE_ELEMENT_DATA_PROTOTYPE': ('APPLICATION-COMPOSITE-ELEMENT-DATA-PROTOTYPE', None),
        'APPLICATION_DATA_TYPE': ('APPLICATION-DATA-TYPE', None),
        'APPLICATION_DEFERRED_DATA_TYPE': ('APPLICATION-DEFERRED-DATA-TYPE', None),
        'APPLICATION_ERROR': ('APPLICATION-ERROR', None),
        'APPLICATION_PRIMITIVE_DATA_TYPE': ('APPLICATION-PRIMITIVE-DATA-TYPE', None),
        'APPLICATION_RECORD_DATA_TYPE': ('APPLICATION-RECORD-DATA-TYPE', None),
        'APPLICATION_RECORD_ELEMENT': ('APPLICATION-RECORD-ELEMENT', None),
        'APPLICATION_SW_COMPONENT_TYPE': ('APPLICATION-SW-COMPONENT-TYPE', None),
        'AR_PACKAGE': ('AR-PACKAGE', None),
        'ARGUMENT_DATA_PROTOTYPE': ('ARGUMENT-DATA-PROTOTYPE', None),
        'ASYNCHRONOUS_SERVER_CALL_POINT': ('ASYNCHRONOUS-SERVER-CALL-POINT', None),
        'ASYNCHRONOUS_SERVER_CALL_RESULT_POINT': ('ASYNCHRONOUS-SERVER-CALL-RESULT-POINT', None),
        'ASYNCHRONOUS_SERVER_CALL_RETURNS_EVENT': ('ASYNCHRONOUS-SERVER-CALL-RETURNS-EVENT', None),
        'AUTOSAR_DATA_PROTOTYPE': ('AUTOSAR-DATA-PROTOTYPE', None),
        'AUTOSAR_DATA_TYPE': ('AUTOSAR-DATA-TYPE', None),
        'BACKGROUND_EVENT': ('BACKGROUND-EVENT', None),
        'BSW_MODULE_ENTRY': ('BSW-MODULE-ENTRY', None),
        'CLIENT_SERVER_INTERFACE': ('CLIENT-SERVER-INTERFACE', None),
        'CLIENT_SERVER_OPERATION': ('CLIENT-SERVER-OPERATION', None),
        'COMPOSITION_SW_COMPONENT_TYPE': ('COMPOSITION-SW-COMPONENT-TYPE', None),
        'COMPU_METHOD': ('COMPU-METHOD', None),
        'CONSTANT_SPECIFICATION': ('CONSTANT-SPECIFICATION', None),
        'DATA_CONSTR': ('DATA-CONSTR', None),
        'DATA_PROTOTYPE': ('DATA-PROTOTYPE', None),
        'DATA_RECEIVE_ERROR_EVENT': ('DATA-RECEIVE-ERROR-EVENT', None),
        'DATA_RECEIVED_EVENT': ('DATA-RECEIVED-EVENT', None),
        'DATA_SEND_COMPLETED_EVENT': ('DATA-SEND-COMPLETED-EVENT', None),
        'DATA_TYPE_MAPPING_SET': ('DATA-TYPE-MAPPING-SET', None),
        'DATA_WRITE_COMPLETED_EVENT': ('DATA-WRITE-COMPLETED-EVENT', None),
        'E2E_PROFILE_COMPATIBILITY_PROPS': ('E-2-E-PROFILE-COMPATIBILITY-PROPS', None),
        'EXCLUSIVE_AREA': ('EXCLUSIVE-AREA', None),
        'EXCLUSIVE_AREA_NESTING_ORDER': ('EXCLUSIVE-AREA-NESTING-ORDER', None),
        'EXTERNAL_TRIGGER_OCCURRED_EVENT': ('EXTERNAL-TRIGGER-OCCURRED-EVENT', None),
        'IMPLEMENTATION_DATA_TYPE': ('IMPLEMENTATION-DATA-TYPE', None),
        'IMPLEMENTATION_DATA_TYPE_ELEMENT': ('IMPLEMENTATION-DATA-TYPE-ELEMENT', None),
        'INIT_EVENT': ('INIT-EVENT', None),
        'INTERNAL_TRIGGER_OCCURRED_EVENT': ('INTERNAL-TRIGGER-OCCURRED-EVENT', None),
        'INTERNAL_TRIGGERING_POINT': ('INTERNAL-TRIGGERING-POINT', None),
        'MODE_DECLARATION': ('MODE-DECLARATION', None),
        'MODE_DECLARATION_GROUP': ('MODE-DECLARATION-GROUP', None),
        'MODE_DECLARATION_GROUP_PROTOTYPE': ('MODE-DECLARATION-GROUP-PROTOTYPE', None),
        'MODE_SWITCH_INTERFACE': ('MODE-SWITCH-INTERFACE', None),
        'MODE_SWITCH_POINT': ('MODE-SWITCH-POINT', None),
        'MODE_SWITCHED_ACK_EVENT': ('MODE-SWITCHED-ACK-EVENT', None),
        'NV_DATA_INTERFACE': ('NV-DATA-INTERFACE', None),
        'OPERATION_INVOKED_EVENT': ('OPERATION-INVOKED-EVENT', None),
        'P_PORT_PROTOTYPE': ('P-PORT-PROTOTYPE', None),
        'PARAMETER_DATA_PROTOTYPE': ('PARAMETER-DATA-PROTOTYPE', None),
        'PARAMETER_INTERFACE': ('PARAMETER-INTERFACE', None),
        'PHYSICAL_DIMENSION': ('PHYSICAL-DIMENSION', None),
        'PORT_PROTOTYPE': ('PORT-PROTOTYPE', None),
        'PR_PORT_PROTOTYPE': ('PR-PORT-PROTOTYPE', None),
        'R_PORT_PROTOTYPE': ('R-PORT-PROTOTYPE', None),
        'RUNNABLE_ENTITY': ('RUNNABLE-ENTITY', None),
        'SENDER_RECEIVER_INTERFACE': ('SENDER-RECEIVER-INTERFACE', None),
        'SW_ADDR_METHOD': ('SW-ADDR-METHOD', None),
        'SW_BASE_TYPE': ('SW-BASE-TYPE', None),
        'SW_COMPONENT_PROTOTYPE': ('SW-COMPONENT-PROTOTYPE', None),
        'SWC_IMPLEMENTATION': ('SWC-IMPLEMENTATION', None),
        'SWC_INTERNAL_BEHAVIOR': ('SWC-INTERNAL-BEHAVIOR', None),
        'SWC_MODE_MANAGER_ERROR_EVENT': ('SWC-MODE-MANAGER-ERROR-EVENT', None),
        'SWC_MODE_SWITCH_EVENT': ('SWC-MODE-SWITCH-EVENT', None),
        'TIMING_EVENT': ('TIMING-EVENT', None),
        'TRANSFORMER_HARD_ERROR_EVENT': ('TRANSFORMER-HARD-ERROR-EVENT', None),
        'TRIGGER': ('TRIGGER', None),
        'UNIT': ('UNIT', None),
        'VARIABLE_ACCESS': ('VARIABLE-ACCESS', None),
        'VARIABLE_DATA_PROTOTYPE': ('VARIABLE-DATA-PROTOTYPE', None),
    },
    'IntervalType': {
        'CLOSED': ('CLOSED', None),
        'OPEN': ('OPEN', None),
    },
    'KeepWithPrevious': {
        'KEEP': ('KEEP', None),
        'NO_KEEP': ('NO-KEEP', None),
    },
    'Language': {
        'AA': ('AA', None),
        'AB': ('AB', None),
        'AF': ('AF', None),
        'AM': ('AM', None),
        'AR': ('AR', None),
        'AS': ('AS', None),
        'AY': ('AY', None),
        'AZ': ('AZ', None),
        'BA': ('BA', None),
        'BE': ('BE', None),
        'BG': ('BG', None),
        'BH': ('BH', None),
        'BI': ('BI', None),
        'BN': ('BN', None),
        'BO': ('BO', None),
        'BR': ('BR', None),
        'CA': ('CA', None),
        'CO': ('CO', None),
        'CS': ('CS', None),
        'CY': ('CY', None),
        'DA': ('DA', None),
        'DE': ('DE', None),
        'DZ': ('DZ', None),
        'EL': ('EL', None),
        'EN': ('EN', None),
        'EO': ('EO', None),
        'ES': ('ES', None),
        'ET': ('ET', None),
        'EU': ('EU', None),
        'FA': ('FA', None),
        'FI': ('FI', None),
        'FJ': ('FJ', None),
        'FO': ('FO', None),
        'FOR_ALL': ('FOR-ALL', None),
        'FR': ('FR', None),
        'FY': ('FY', None),
        'GA': ('GA', None),
        'GD': ('GD', None),
        'GL': ('GL', None),
        'GN': ('GN', None),
        'GU': ('GU', None),
        'HA': ('HA', None),
        'HI': ('HI', None),
        'HR': ('HR', None),
        'HU': ('HU', None),
        'HY': ('HY', None),
        'IA': ('IA', None),
        'IE': ('IE', None),
        'IK': ('IK', None),
        'IN': ('IN', None),
        'IS': ('IS', None),
        'IT': ('IT', None),
        'IW': ('IW', None),
        'JA': ('JA', None),
        'JI': ('JI', None),
        'JW': ('JW', None),
        'KA': ('KA', None),
        'KK': ('KK', None),
        'KL': ('KL', None),
        'KM': ('KM', None),
        'KN': ('KN', None),
        'KO': ('KO', None),
        'KS': ('KS', None),
        'KU': ('KU', None),
        'KY': ('KY', None),
        'LA': ('LA', None),
        'LN': ('LN', None),
        'LO': ('LO', None),
        'LT': ('LT', None),
        'LV': ('LV', None),
        'MG': ('MG', None),
        'MI': ('MI', None),
        'MK': ('MK', None),
        'ML': ('ML', None),
        'MN': ('MN', None),
        'MO': ('MO', None),
        'MR': ('MR', None),
        'MS': ('MS', None),
        'MT': ('MT', None),
        'MY': ('MY', None),
        'NA': ('NA', None),
        'NE': ('NE', None),
        'NL': ('NL', None),
        'NO': ('NO', None),
        'OC': ('OC', None),
        'OM': ('OM', None),
        'OR': ('OR', None),
        'PA': ('PA', None),
        'PL': ('PL', None),
        'PS': ('PS', None),
        'PT': ('PT', None),
        'QU': ('QU', None),
        'RM': ('RM', None),
        'RN': ('RN', None),
        'RO': ('RO', None),
        'RU': ('RU', None),
        'RW': ('RW', None),
        'SA': ('SA', None),
        'SD': ('SD', None),
        'SG': ('SG', None),
        'SH': ('SH', None),
        'SI': ('SI', None),
        'SK': ('SK', None),
        'SL': ('SL', None),
        'SM': ('SM', None),
        'SN': ('SN', None),
        'SO': ('SO', None),
        'SQ': ('SQ', None),
        'SR': ('SR', None),
        'SS': ('SS', None),
        'ST': ('ST', None),
        'SU': ('SU', None),
        'SV': ('SV', None),
        'SW': ('SW', None),
        'TA': ('TA', None),
        'TE': ('TE', None),
        'TG': ('TG', None),
        'TH': ('TH', None),
        'TI': ('TI', None),
        'TK': ('TK', None),
        'TL': ('TL', None),
        'TN': ('TN', None),
        'TO': ('TO', None),
        'TR': ('TR', None),
        'TS': ('TS', None),
        'TT': ('TT', None),
        'TW': ('TW', None),
        'UK': ('UK', None),
        'UR': ('UR', None),
        'UZ': ('UZ', None),
        'VI': ('VI', None),
        'VO': ('VO', None),
        'WO': ('WO', None),
        'XH': ('XH', None),
        'YO': ('YO', None),
        'ZH': ('ZH', None),
        'ZU': ('ZU', None),
    },
    'ModeActivationKind': {
        'ON_ENTRY': ('ON-ENTRY', None),
        'ON_EXIT': ('ON-EXIT', None),
        'ON_TRANSITION': ('ON-TRANSITION', None),
    },
    'ModeErrorReactionPolicy': {
        'DEFAULT_MODE': ('DEFAULT-MODE', None),
        'LAST_MODE': ('LAST-MODE', None),
    },
    'Monotony': {
        'DECREASING': ('DECREASING', None),
        'INCREASING': ('INCREASING', None),
        'MONOTONOUS': ('MONOTONOUS', None),
        'NO_MONOTONY': ('NO-MONOTONY', None),
        'STRICTLY_DECREASING': ('STRICTLY-DECREASING', None),
        'STRICTLY_INCREASING': ('STRICTLY-INCREASING', None),
        'STRICT_MONOTONOUS': ('STRICT-MONOTONOUS', None),
    },
    'PageBreak': {
        'BREAK': ('BREAK', None),
        'NO_BREAK': ('NO-BREAK', None),
    },
    'PageWide': {
        'NO_PGWIDE': ('NO-PGWIDE', None),
        'PGWIDE': ('PGWIDE', None),
    },
    'ReentrancyLevel': {
        'MULTICORE_REENTRANT': ('MULTICORE-REENTRANT', None),
        'NON_REENTRANT': ('NON-REENTRANT', None),
        'SINGLE_CORE_REENTRANT': ('SINGLE-CORE-REENTRANT', None),
    },
    'RteApiReturnValueProvision': {
        'RETURN_VALUE_PROVIDED': ('RETURN-VALUE-PROVIDED', None),
        'NO_RETURN_VALUE_PROVIDED': ('NO-RETURN-VALUE-PROVIDED', None),
    },
    'ScaleConstraintValidity': {
        'NOT_AVAILABLE': ('NOT-AVAILABLE', None),
        'NOT_DEFINED': ('NOT-DEFINED', None),
        'NOT_VALID': ('NOT-VALID', None),
        'VALID': ('VALID', None),
    },
    'ServerArgImplPolicy': {
        'USE_ARGUMENT_TYPE': ('USE-ARGUMENT-TYPE', None),
        'USE_ARRAY_BASED_TYPE': ('USE-ARRAY-BASE-TYPE', None),
        'USE_VOID': ('USE-VOID', None),
    },
    'ServiceKind': {
        'ANY_STANDARDIZED': ('ANY-STANDARDIZED', None),
        'BASIC_SOFTWARE_MODE_MANAGER': ('BASIC-SOFTWARE-MODE-MANAGER', None),
        'COM_MANAGER': ('COM-MANAGER', None),
        'CRYPTO_KEY_MANAGEMENT': ('CRYPTO-KEY-MANAGEMENT', None),
        'CRYPTO_SERVICE_MANAGER': ('CRYPTO-SERVICE-MANAGER', None),
        'DEFAULT_ERROR_TRACER': ('DEFAULT-ERROR-TRACER', None),
        'DEVELOPMENT_ERROR_TRACER': ('DEVELOPMENT-ERROR-TRACER', None),
        'DIAGNOSTIC_COMMUNICATION_MANAGER': ('DIAGNOSTIC-COMMUNICATION-MANAGER', None),
        'DIAGNOSTIC_EVENT_MANAGER': ('DIAGNOSTIC-EVENT-MANAGER', None),
        'DIAGNOSTIC_LOG_AND_TRACE': ('DIAGNOSTIC-LOG-AND-TRACE', None),
        'ECU_MANAGER': ('ECU-MANAGER', None),
        'ERROR_TRACER': ('ERROR-TRACER', None),
        'FUNCTION_INHIBITION_MANAGER': ('FUNCTION-INHIBITION-MANAGER', None),
        'HARDWARE_TEST_MANAGER': ('HARDWARE-TEST-MANAGER', None),
        'INTRUSION_DETECTION_SECURITY_MANAGEMENT': ('INTRUSION-DETECTION-SECURITY-MANAGEMENT', None),
        'J1939_DCM': ('J-1939-DCM', None),
        'J1939_REQUEST_MANAGER': ('J-1939-REQUEST-MANAGER', None),
        'NON_VOLATILE_RAM_MANAGER': ('NON-VOLATILE-RAM-MANAGER', None),
        'OPERATING_SYSTEM': ('OPERATING-SYSTEM', None),
        'SECURE_ON_BOARD_COMMUNICATION': ('SECURE-ON-BOARD-COMMUNICATION', None),
        'SYNC_BASE_TIME_MANAGER': ('SYNC-BASE-TIME-MANAGER', None),
        'V2X_FACILITIES': ('V-2-X-FACILITIES', None),
        'V2X_MANAGEMENT': ('V-2-X-MANAGEMENT', None),
        'VENDOR_SPECIFIC': ('VENDOR-SPECIFIC', None),
        'WATCH_DOG_MANAGER': ('WATCH-DOG-MANAGER', None),
    },
    'SupportBufferLocking': {
        'DOES_NOT_SUPPORT_BUFFER_LOCKING': ('DOES-NOT-SUPPORT-BUFFER-LOCKING', None),
        'SUPPORTS_BUFFER_LOCKING': ('SUPPORTS-BUFFER-LOCKING', None),
    },
    'SwCalibrationAccess': {
        'NOT_ACCESSIBLE': ('NOT-ACCESSIBLE', None),
        'READ_ONLY': ('READ-ONLY', None),
        'READ_WRITE': ('READ-WRITE', None),
    },
    'SwImplPolicy': {
        'CONST': ('CONST', None),
        'FIXED': ('FIXED', None),
        'MEASUREMENT_POINT': ('MEASUREMENT-POINT', None),
        'QUEUED': ('QUEUED', None),
        'STANDARD': ('STANDARD', None),
    },
    'TransmissionMode': {
        'CYCLIC': ('CYCLIC', None),
        'CYCLIC_AND_ON_CHANGE': ('CYCLIC-AND-ON-CHANGE', None),
        'TRIGGERED': ('TRIGGERED', None),
    },
    'VariableAccessScope': {
        'COMMUNICATION_INTER_ECU': ('COMMUNICATION-INTER-ECU', None),
        'COMMUNICATION_INTRA_PARTITION': ('COMMUNICATION-INTRA-PARTITION', None),
        'INTER_PARTITION_INTRA_ECU': ('INTER-PARTITION-INTRA-ECU', None),
    },
}
ALIASES = {'CalibrationAxisCategory': {'COM_AXIS': 'COM_AXIS', 'CURVE_AXIS': 'CURVE_AXIS', 'FIX_AXIS': 'FIX_AXIS', 'RES_AXIS': 'RES_AXIS', 'STD_AXIS': 'STD_AXIS'}}
