"""
What is written is what the AUTOSAR schema says (S01): a reference serialiser made of a hand-written
table, compared with the document an XML parser finds in the writer's output.
"""
import lxml.etree as etree
import autosar.xml
import autosar.xml.element as ar_element
import autosar.xml.enumeration as ar_enum
import autosar.xml.reference as ar_ref
import autosar.xml.document as ar_document
from sx.case import Case
from harness import spec, roundtrip
from harness.build import Builder
from harness.values import texts_of

# Class = own tag | field TAG, in the order of the schema.   TAG/ITEM: every entry of the field in an ITEM of its own
# inside TAG;  TAG/*: entries (or the one value) named by their class;  +ITEM: entries without anything around them;
# @NAME: attribute;  =name: content with a rule of its own (RULES below)
SCHEMA = '''
CompuMethod = COMPU-METHOD | display_format DISPLAY-FORMAT; unit_ref UNIT-REF; int_to_phys COMPU-INTERNAL-TO-PHYS; phys_to_int COMPU-PHYS-TO-INTERNAL
Computation = - | compu_scales COMPU-SCALES/*; default_value COMPU-DEFAULT-VALUE
CompuRational = COMPU-RATIONAL-COEFFS | numerator COMPU-NUMERATOR/V; denominator COMPU-DENOMINATOR/V
CompuConst = COMPU-CONST | =const
CompuScale = COMPU-SCALE | label SHORT-LABEL; symbol SYMBOL; desc DESC; mask MASK; =limits; inverse_value COMPU-INVERSE-VALUE; content +*
ScaleConstraint = SCALE-CONSTR | validity @VALIDITY; label SHORT-LABEL; desc DESC; =limits
InternalConstraint = INTERNAL-CONSTRS | =limits; scale_constrs SCALE-CONSTRS/*; max_gradient MAX-GRADIENT; max_diff MAX-DIFF; monotony MONOTONY
PhysicalConstraint = PHYS-CONSTRS | =limits; scale_constrs SCALE-CONSTRS/*; max_gradient MAX-GRADIENT; max_diff MAX-DIFF; monotony MONOTONY; unit_ref UNIT-REF
DataConstraintRule = DATA-CONSTR-RULE | level CONSTR-LEVEL; physical PHYS-CONSTRS; internal INTERNAL-CONSTRS
DataConstraint = DATA-CONSTR | rules DATA-CONSTR-RULES/*
Unit = UNIT | display_name DISPLAY-NAME; factor FACTOR-SI-TO-UNIT; offset OFFSET-SI-TO-UNIT; physical_dimension_ref PHYSICAL-DIMENSION-REF
DataFilter = DATA-FILTER | data_filter_type DATA-FILTER-TYPE; mask MASK; max_val MAX; min_val MIN; offset OFFSET; period PERIOD; x X
AutosarEngineeringObject = AUTOSAR-ENGINEERING-OBJECT | label SHORT-LABEL; category CATEGORY
Code = CODE | artifact_descriptors ARTIFACT-DESCRIPTORS/*
ApplicationArrayDataType = APPLICATION-ARRAY-DATA-TYPE | sw_data_def_props SW-DATA-DEF-PROPS; dynamic_array_size_profile DYNAMIC-ARRAY-SIZE-PROFILE; element ELEMENT
ApplicationArrayElement = ELEMENT | sw_data_def_props SW-DATA-DEF-PROPS; type_ref TYPE-TREF; array_size_handling ARRAY-SIZE-HANDLING; array_size_semantics ARRAY-SIZE-SEMANTICS; index_data_type_ref INDEX-DATA-TYPE-REF; max_number_of_elements MAX-NUMBER-OF-ELEMENTS
ApplicationRecordDataType = APPLICATION-RECORD-DATA-TYPE | sw_data_def_props SW-DATA-DEF-PROPS; elements ELEMENTS/*
ApplicationRecordElement = APPLICATION-RECORD-ELEMENT | sw_data_def_props SW-DATA-DEF-PROPS; type_ref TYPE-TREF; is_optional IS-OPTIONAL
ApplicationPrimitiveDataType = APPLICATION-PRIMITIVE-DATA-TYPE | sw_data_def_props SW-DATA-DEF-PROPS
SwBaseType = SW-BASE-TYPE | size BASE-TYPE-SIZE; max_size MAX-BASE-TYPE-SIZE; encoding BASE-TYPE-ENCODING; alignment MEM-ALIGNMENT; byte_order BYTE-ORDER; native_declaration NATIVE-DECLARATION
SwAddrMethod = SW-ADDR-METHOD |
ImplementationDataType = IMPLEMENTATION-DATA-TYPE | sw_data_def_props SW-DATA-DEF-PROPS; dynamic_array_size_profile DYNAMIC-ARRAY-SIZE-PROFILE; is_struct_with_optional_element IS-STRUCT-WITH-OPTIONAL-ELEMENT; sub_elements SUB-ELEMENTS/*; symbol_props SYMBOL-PROPS; type_emitter TYPE-EMITTER
ImplementationDataTypeElement = IMPLEMENTATION-DATA-TYPE-ELEMENT | array_impl_policy ARRAY-IMPL-POLICY; array_size ARRAY-SIZE; array_size_handling ARRAY-SIZE-HANDLING; array_size_semantics ARRAY-SIZE-SEMANTICS; is_optional IS-OPTIONAL; sub_elements SUB-ELEMENTS/*; sw_data_def_props SW-DATA-DEF-PROPS
SymbolProps = SYMBOL-PROPS | symbol SYMBOL
SwDataDefProps = SW-DATA-DEF-PROPS | variants SW-DATA-DEF-PROPS-VARIANTS/*
SwDataDefPropsConditional = SW-DATA-DEF-PROPS-CONDITIONAL | display_presentation DISPLAY-PRESENTATION; step_size STEP-SIZE; annotations ANNOTATIONS/*; sw_addr_method_ref SW-ADDR-METHOD-REF; alignment SW-ALIGNMENT; base_type_ref BASE-TYPE-REF; bit_representation SW-BIT-REPRESENTATION; calibration_access SW-CALIBRATION-ACCESS; text_props SW-TEXT-PROPS; compu_method_ref COMPU-METHOD-REF; display_format DISPLAY-FORMAT; data_constraint_ref DATA-CONSTR-REF; impl_data_type_ref IMPLEMENTATION-DATA-TYPE-REF; impl_policy SW-IMPL-POLICY; additional_native_type_qualifier ADDITIONAL-NATIVE-TYPE-QUALIFIER; intended_resolution SW-INTENDED-RESOLUTION; interpolation_method SW-INTERPOLATION-METHOD; is_virtual SW-IS-VIRTUAL; ptr_target_props SW-POINTER-TARGET-PROPS; unit_ref UNIT-REF
SwBitRepresentation = SW-BIT-REPRESENTATION | position BIT-POSITION; num_bits NUMBER-OF-BITS
SwTextProps = SW-TEXT-PROPS | array_size_semantics ARRAY-SIZE-SEMANTICS; max_text_size SW-MAX-TEXT-SIZE; base_type_ref BASE-TYPE-REF; fill_char SW-FILL-CHARACTER
SwPointerTargetProps = SW-POINTER-TARGET-PROPS | target_category TARGET-CATEGORY; sw_data_def_props SW-DATA-DEF-PROPS; function_ptr_signature_ref FUNCTION-POINTER-SIGNATURE-REF
DataTypeMappingSet = DATA-TYPE-MAPPING-SET | data_type_maps DATA-TYPE-MAPS/*
DataTypeMap = DATA-TYPE-MAP | appl_data_type_ref APPLICATION-DATA-TYPE-REF; impl_data_type_ref IMPLEMENTATION-DATA-TYPE-REF
ModeRequestTypeMap = MODE-REQUEST-TYPE-MAP | implementation_data_type IMPLEMENTATION-DATA-TYPE-REF; mode_group MODE-GROUP-REF
VariableDataPrototype = VARIABLE-DATA-PROTOTYPE | sw_data_def_props SW-DATA-DEF-PROPS; type_ref TYPE-TREF; init_value INIT-VALUE/*
ParameterDataPrototype = PARAMETER-DATA-PROTOTYPE | sw_data_def_props SW-DATA-DEF-PROPS; type_ref TYPE-TREF; init_value INIT-VALUE/*
ArgumentDataPrototype = ARGUMENT-DATA-PROTOTYPE | sw_data_def_props SW-DATA-DEF-PROPS; type_ref TYPE-TREF; direction DIRECTION; server_arg_impl_policy SERVER-ARGUMENT-IMPL-POLICY
ConstantSpecification = CONSTANT-SPECIFICATION | value VALUE-SPEC/*
TextValueSpecification = TEXT-VALUE-SPECIFICATION | label SHORT-LABEL; value VALUE
NumericalValueSpecification = NUMERICAL-VALUE-SPECIFICATION | label SHORT-LABEL; value VALUE
NotAvailableValueSpecification = NOT-AVAILABLE-VALUE-SPECIFICATION | label SHORT-LABEL; default_pattern DEFAULT-PATTERN
ArrayValueSpecification = ARRAY-VALUE-SPECIFICATION | label SHORT-LABEL; elements ELEMENTS/*
RecordValueSpecification = RECORD-VALUE-SPECIFICATION | label SHORT-LABEL; fields FIELDS/*
ApplicationValueSpecification = APPLICATION-VALUE-SPECIFICATION | label SHORT-LABEL; category CATEGORY; sw_axis_conts SW-AXIS-CONTS/*; sw_value_cont SW-VALUE-CONT
ConstantReference = CONSTANT-REFERENCE | label SHORT-LABEL; constant_ref CONSTANT-REF
ValueList = SW-ARRAYSIZE | values +V
SwValues = SW-VALUES-PHYS | =values
ValueGroup = VG | label LABEL; =values
SwAxisCont = SW-AXIS-CONT | category CATEGORY; unit_ref UNIT-REF; unit_display_name UNIT-DISPLAY-NAME; sw_axis_index SW-AXIS-INDEX; sw_array_size SW-ARRAYSIZE; sw_values_phys SW-VALUES-PHYS
SwValueCont = SW-VALUE-CONT | unit_ref UNIT-REF; unit_display_name UNIT-DISPLAY-NAME; sw_array_size SW-ARRAYSIZE; sw_values_phys SW-VALUES-PHYS
NvDataInterface = NV-DATA-INTERFACE | is_service IS-SERVICE; service_kind SERVICE-KIND; data_elements NV-DATAS/*
ParameterInterface = PARAMETER-INTERFACE | is_service IS-SERVICE; service_kind SERVICE-KIND; parameters PARAMETERS/*
SenderReceiverInterface = SENDER-RECEIVER-INTERFACE | is_service IS-SERVICE; service_kind SERVICE-KIND; data_elements DATA-ELEMENTS/*; invalidation_policies INVALIDATION-POLICYS/*
InvalidationPolicy = INVALIDATION-POLICY | data_element_ref DATA-ELEMENT-REF; handle_invalid HANDLE-INVALID
ClientServerInterface = CLIENT-SERVER-INTERFACE | is_service IS-SERVICE; service_kind SERVICE-KIND; operations OPERATIONS/*; possible_errors POSSIBLE-ERRORS/*
ApplicationError = APPLICATION-ERROR | error_code ERROR-CODE
ClientServerOperation = CLIENT-SERVER-OPERATION | arguments ARGUMENTS/*; diag_arg_integrity DIAG-ARG-INTEGRITY; fire_and_forget FIRE-AND-FORGET; possible_error_refs POSSIBLE-ERROR-REFS/POSSIBLE-ERROR-REF
ModeSwitchInterface = MODE-SWITCH-INTERFACE | is_service IS-SERVICE; service_kind SERVICE-KIND; mode_group MODE-GROUP
ModeDeclarationGroup = MODE-DECLARATION-GROUP | initial_mode_ref INITIAL-MODE-REF; mode_declarations MODE-DECLARATIONS/*; mode_manager_error_behavior MODE-MANAGER-ERROR-BEHAVIOR; mode_transitions MODE-TRANSITIONS/*; mode_user_error_behavior MODE-USER-ERROR-BEHAVIOR; on_transition_value ON-TRANSITION-VALUE
ModeDeclaration = MODE-DECLARATION | value VALUE
ModeErrorBehavior = - | default_mode_ref DEFAULT-MODE-REF; error_reaction_policy ERROR-REACTION-POLICY
ModeTransition = MODE-TRANSITION | entered_mode_ref ENTERED-MODE-REF; exited_mode_ref EXITED-MODE-REF
ModeDeclarationGroupPrototype = MODE-DECLARATION-GROUP-PROTOTYPE | calibration_access SW-CALIBRATION-ACCESS; type_ref TYPE-TREF
E2EProfileCompatibilityProps = E-2-E-PROFILE-COMPATIBILITY-PROPS | transit_to_invalid_extended TRANSIT-TO-INVALID-EXTENDED
ApplicationSoftwareComponentType = APPLICATION-SW-COMPONENT-TYPE | ports PORTS/*; internal_behavior INTERNAL-BEHAVIORS/*; symbol_props SYMBOL-PROPS
CompositionSwComponentType = COMPOSITION-SW-COMPONENT-TYPE | ports PORTS/*; components COMPONENTS/*; connectors CONNECTORS/*
SwcImplementation = SWC-IMPLEMENTATION | code_descriptors CODE-DESCRIPTORS/*; behavior_ref BEHAVIOR-REF; required_rte_vendor REQUIRED-RTE-VENDOR
ModeSwitchSenderComSpec = MODE-SWITCH-SENDER-COM-SPEC | enhanced_mode_api ENHANCED-MODE-API; mode_group_ref MODE-GROUP-REF; mode_switched_ack MODE-SWITCHED-ACK; queue_length QUEUE-LENGTH
QueuedSenderComSpec = QUEUED-SENDER-COM-SPEC | data_element_ref DATA-ELEMENT-REF; handle_out_of_range HANDLE-OUT-OF-RANGE; network_representation NETWORK-REPRESENTATION; transmission_acknowledge TRANSMISSION-ACKNOWLEDGE; tranmsission_props TRANSMISSION-PROPS; uses_end_to_end_protection USES-END-TO-END-PROTECTION
NonqueuedSenderComSpec = NONQUEUED-SENDER-COM-SPEC | data_element_ref DATA-ELEMENT-REF; handle_out_of_range HANDLE-OUT-OF-RANGE; network_representation NETWORK-REPRESENTATION; transmission_acknowledge TRANSMISSION-ACKNOWLEDGE; tranmsission_props TRANSMISSION-PROPS; uses_end_to_end_protection USES-END-TO-END-PROTECTION; data_filter DATA-FILTER; init_value INIT-VALUE/*
NvProvideComSpec = NV-PROVIDE-COM-SPEC | ram_block_init_value RAM-BLOCK-INIT-VALUE/*; rom_block_init_value ROM-BLOCK-INIT-VALUE/*; variable_ref VARIABLE-REF
ParameterProvideComSpec = PARAMETER-PROVIDE-COM-SPEC | init_value INIT-VALUE/*; parameter_ref PARAMETER-REF
ServerComSpec = SERVER-COM-SPEC | operation_ref OPERATION-REF; queue_length QUEUE-LENGTH; transformation_com_spec_props TRANSFORMATION-COM-SPEC-PROPSS/*
QueuedReceiverComSpec = QUEUED-RECEIVER-COM-SPEC | data_element_ref DATA-ELEMENT-REF; handle_out_of_range HANDLE-OUT-OF-RANGE; handle_out_of_range_status HANDLE-OUT-OF-RANGE-STATUS; max_delta_counter_init MAX-DELTA-COUNTER-INIT; max_no_new_repeated_data MAX-NO-NEW-OR-REPEATED-DATA; network_representation NETWORK-REPRESENTATION; reception_props RECEPTION-PROPS; replace_with REPLACE-WITH; sync_counter_init SYNC-COUNTER-INIT; transformation_com_spec_props TRANSFORMATION-COM-SPEC-PROPSS/*; uses_end_to_end_protection USES-END-TO-END-PROTECTION; queue_length QUEUE-LENGTH
NonqueuedReceiverComSpec = NONQUEUED-RECEIVER-COM-SPEC | data_element_ref DATA-ELEMENT-REF; handle_out_of_range HANDLE-OUT-OF-RANGE; handle_out_of_range_status HANDLE-OUT-OF-RANGE-STATUS; max_delta_counter_init MAX-DELTA-COUNTER-INIT; max_no_new_repeated_data MAX-NO-NEW-OR-REPEATED-DATA; network_representation NETWORK-REPRESENTATION; reception_props RECEPTION-PROPS; replace_with REPLACE-WITH; sync_counter_init SYNC-COUNTER-INIT; transformation_com_spec_props TRANSFORMATION-COM-SPEC-PROPSS/*; uses_end_to_end_protection USES-END-TO-END-PROTECTION; alive_timeout ALIVE-TIMEOUT; enable_update ENABLE-UPDATE; data_filter FILTER; handle_data_status HANDLE-DATA-STATUS; handle_never_received HANDLE-NEVER-RECEIVED; handle_timeout_type HANDLE-TIMEOUT-TYPE; init_value INIT-VALUE/*; timeout_substitution_value TIMEOUT-SUBSTITUTION-VALUE/*
NvRequireComSpec = NV-REQUIRE-COM-SPEC | init_value INIT-VALUE/*; variable_ref VARIABLE-REF
ParameterRequireComSpec = PARAMETER-REQUIRE-COM-SPEC | init_value INIT-VALUE/*; parameter_ref PARAMETER-REF
ModeSwitchReceiverComSpec = MODE-SWITCH-RECEIVER-COM-SPEC | enhanced_mode_api ENHANCED-MODE-API; mode_group_ref MODE-GROUP-REF; supports_async SUPPORTS-ASYNCHRONOUS-MODE-SWITCH
ClientComSpec = CLIENT-COM-SPEC | e2e_call_respone_timeout END-TO-END-CALL-RESPONSE-TIMEOUT; operation_ref OPERATION-REF; transformation_com_spec_props TRANSFORMATION-COM-SPEC-PROPSS/*
EndToEndTransformationComSpecProps = END-TO-END-TRANSFORMATION-COM-SPEC-PROPS | desc DESC; category CATEGORY; introduction INTRODUCTION; clear_from_valid_to_invalid CLEAR-FROM-VALID-TO-INVALID; disable_e2e_check DISABLE-END-TO-END-CHECK; disable_e2e_state_machine DISABLE-END-TO-END-STATE-MACHINE; e2e_profile_compatibility_props_ref E-2-E-PROFILE-COMPATIBILITY-PROPS-REF; max_delta_counter MAX-DELTA-COUNTER; max_error_state_init MAX-ERROR-STATE-INIT; max_error_state_invalid MAX-ERROR-STATE-INVALID; max_error_state_valid MAX-ERROR-STATE-VALID; max_no_new_repeated_data MAX-NO-NEW-OR-REPEATED-DATA; min_ok_state_init MIN-OK-STATE-INIT; min_ok_state_invalid MIN-OK-STATE-INVALID; min_ok_state_valid MIN-OK-STATE-VALID; sync_counter_init SYNC-COUNTER-INIT; window_size WINDOW-SIZE; window_size_init WINDOW-SIZE-INIT; window_size_invalid WINDOW-SIZE-INVALID; window_size_valid WINDOW-SIZE-VALID
ModeSwitchedAckRequest = MODE-SWITCHED-ACK | timeout TIMEOUT
TransmissionAcknowledgementRequest = TRANSMISSION-ACKNOWLEDGE | timeout TIMEOUT
TransmissionComSpecProps = TRANSMISSION-PROPS | data_update_period DATA-UPDATE-PERIOD; minimum_send_interval MINIMUM-SEND-INTERVAL; transmission_mode TRANSMISSION-MODE
ReceptionComSpecProps = RECEPTION-PROPS | data_update_period DATA-UPDATE-PERIOD; timeout TIMEOUT
ProvidePortPrototype = P-PORT-PROTOTYPE | com_spec PROVIDED-COM-SPECS/*; port_interface_ref PROVIDED-INTERFACE-TREF
RequirePortPrototype = R-PORT-PROTOTYPE | allow_unconnected MAY-BE-UNCONNECTED; com_spec REQUIRED-COM-SPECS/*; port_interface_ref REQUIRED-INTERFACE-TREF
PRPortPrototype = PR-PORT-PROTOTYPE | provided_com_spec PROVIDED-COM-SPECS/*; required_com_spec REQUIRED-COM-SPECS/*; port_interface_ref PROVIDED-REQUIRED-INTERFACE-TREF
SwComponentPrototype = SW-COMPONENT-PROTOTYPE | type_ref TYPE-TREF
PortInCompositionTypeInstanceRef = - | component_ref CONTEXT-COMPONENT-REF; =target port
AssemblySwConnector = ASSEMBLY-SW-CONNECTOR | provide_port PROVIDER-IREF; require_port REQUESTER-IREF
DelegationSwConnector = DELEGATION-SW-CONNECTOR | =inner port; outer_port OUTER-PORT-REF
PassThroughSwConnector = PASS-THROUGH-SW-CONNECTOR | provide_port PROVIDED-OUTER-PORT-REF; require_port REQUIRED-OUTER-PORT-REF
POperationInAtomicSwcInstanceRef = - | context_port CONTEXT-P-PORT-REF; target_provided_operation TARGET-PROVIDED-OPERATION-REF
PModeGroupInAtomicSwcInstanceRef = P-MODE-GROUP-IN-ATOMIC-SWC-INSTANCE-REF | context_port CONTEXT-P-PORT-REF; target_mode_group TARGET-MODE-GROUP-REF
PTriggerInAtomicSwcTypeInstanceRef = - | context_port CONTEXT-P-PORT-REF; target_trigger TARGET-TRIGGER-REF
ROperationInAtomicSwcInstanceRef = - | context_port CONTEXT-R-PORT-REF; target_required_operation TARGET-REQUIRED-OPERATION-REF
RTriggerInAtomicSwcInstanceRef = - | context_port CONTEXT-R-PORT-REF; target_trigger TARGET-TRIGGER-REF
RVariableInAtomicSwcInstanceRef = - | context_port CONTEXT-R-PORT-REF; target_data_element TARGET-DATA-ELEMENT-REF
RModeInAtomicSwcInstanceRef = - | context_port CONTEXT-PORT-REF; context_mode_declaration_group_prototype CONTEXT-MODE-DECLARATION-GROUP-PROTOTYPE-REF; target_mode_declaration TARGET-MODE-DECLARATION-REF
RModeGroupInAtomicSwcInstanceRef = R-MODE-GROUP-IN-ATOMIC-SWC-INSTANCE-REF | context_port CONTEXT-R-PORT-REF; target_mode_group TARGET-MODE-GROUP-REF
ArVariableInImplementationDataInstanceRef = - | port_prototype_ref PORT-PROTOTYPE-REF; root_variable_data_prototype_ref ROOT-VARIABLE-DATA-PROTOTYPE-REF; context_data_prototype_refs CONTEXT-DATA-PROTOTYPE-REFS/CONTEXT-DATA-PROTOTYPE-REF; target_data_prototype_ref TARGET-DATA-PROTOTYPE-REF
VariableInAtomicSWCTypeInstanceRef = - | port_prototype_ref PORT-PROTOTYPE-REF; root_variable_data_prototype_ref ROOT-VARIABLE-DATA-PROTOTYPE-REF; context_data_prototype_refs +CONTEXT-DATA-PROTOTYPE-REF; target_data_prototype_ref TARGET-DATA-PROTOTYPE-REF
ParameterInAtomicSwcTypeInstanceRef = - | port_prototype PORT-PROTOTYPE-REF; root_parameter_data_prototype ROOT-PARAMETER-DATA-PROTOTYPE-REF; context_data_prototype CONTEXT-DATA-PROTOTYPE-REF; target_data_prototype TARGET-DATA-PROTOTYPE-REF
AutosarVariableRef = ACCESSED-VARIABLE | ar_variable_in_impl_datatype AUTOSAR-VARIABLE-IN-IMPL-DATATYPE; ar_variable_iref AUTOSAR-VARIABLE-IREF; local_variable_ref LOCAL-VARIABLE-REF
AutosarParameterRef = ACCESSED-PARAMETER | autosar_parameter AUTOSAR-PARAMETER-IREF; local_parameter LOCAL-PARAMETER-REF
VariableAccess = VARIABLE-ACCESS | accessed_variable ACCESSED-VARIABLE; scope SCOPE
ParameterAccess = PARAMETER-ACCESS | return_value_provision RETURN-VALUE-PROVISION; accessed_parameter ACCESSED-PARAMETER; sw_data_def_props SW-DATA-DEF-PROPS
SwcInternalBehavior = SWC-INTERNAL-BEHAVIOR | data_type_mappings DATA-TYPE-MAPPING-REFS/DATA-TYPE-MAPPING-REF; exclusive_areas EXCLUSIVE-AREAS/*; events EVENTS/*; port_api_options PORT-API-OPTIONS/*; runnables RUNNABLES/*
ExclusiveArea = EXCLUSIVE-AREA |
ExecutableEntityActivationReason = EXECUTABLE-ENTITY-ACTIVATION-REASON | symbol SYMBOL; bit_position BIT-POSITION
ExclusiveAreaRefConditional = EXCLUSIVE-AREA-REF-CONDITIONAL | exclusive_area EXCLUSIVE-AREA-REF
RunnableEntityArgument = RUNNABLE-ENTITY-ARGUMENT | symbol SYMBOL
RunnableEntity = RUNNABLE-ENTITY | activation_reasons ACTIVATION-REASONS/*; can_enter_leave CAN-ENTERS/*; exclusive_area_nesting_order EXCLUSIVE-AREA-NESTING-ORDER-REFS/EXCLUSIVE-AREA-NESTING-ORDER-REF; minimum_start_interval MINIMUM-START-INTERVAL; reentrancy_level REENTRANCY-LEVEL; runs_insides RUNS-INSIDES/*; sw_addr_method SW-ADDR-METHOD-REF; argument ARGUMENTS/*; async_server_call_result_point ASYNCHRONOUS-SERVER-CALL-RESULT-POINTS/*; can_be_invoked_concurrently CAN-BE-INVOKED-CONCURRENTLY; data_read_access DATA-READ-ACCESSS/*; data_receive_point_by_argument DATA-RECEIVE-POINT-BY-ARGUMENTS/*; data_receive_point_by_value DATA-RECEIVE-POINT-BY-VALUES/*; data_send_point DATA-SEND-POINTS/*; data_write_access DATA-WRITE-ACCESSS/*; external_triggering_point EXTERNAL-TRIGGERING-POINTS/*; internal_triggering_point INTERNAL-TRIGGERING-POINTS/*; mode_access_point MODE-ACCESS-POINTS/*; mode_switch_point MODE-SWITCH-POINTS/*; parameter_access PARAMETER-ACCESSS/*; read_local_variable READ-LOCAL-VARIABLES/*; server_call_point SERVER-CALL-POINTS/*; symbol SYMBOL; wait_point WAIT-POINTS/*; write_local_variable WRITTEN-LOCAL-VARIABLES/*
AsynchronousServerCallReturnsEvent = ASYNCHRONOUS-SERVER-CALL-RETURNS-EVENT | =event; event_source EVENT-SOURCE-REF
BackgroundEvent = BACKGROUND-EVENT | =event
DataReceiveErrorEvent = DATA-RECEIVE-ERROR-EVENT | =event; data DATA-IREF
DataReceivedEvent = DATA-RECEIVED-EVENT | =event; data DATA-IREF
DataSendCompletedEvent = DATA-SEND-COMPLETED-EVENT | =event; event_source EVENT-SOURCE-REF
DataWriteCompletedEvent = DATA-WRITE-COMPLETED-EVENT | =event; event_source EVENT-SOURCE-REF
ExternalTriggerOccurredEvent = EXTERNAL-TRIGGER-OCCURRED-EVENT | =event; trigger TRIGGER-IREF
InitEvent = INIT-EVENT | =event
InternalTriggerOccurredEvent = INTERNAL-TRIGGER-OCCURRED-EVENT | =event; event_source EVENT-SOURCE-REF
ModeSwitchedAckEvent = MODE-SWITCHED-ACK-EVENT | =event; event_source EVENT-SOURCE-REF
OperationInvokedEvent = OPERATION-INVOKED-EVENT | =event; operation OPERATION-IREF
SwcModeManagerErrorEvent = SWC-MODE-MANAGER-ERROR-EVENT | =event; mode_group MODE-GROUP-IREF
SwcModeSwitchEvent = SWC-MODE-SWITCH-EVENT | =event; activation ACTIVATION; mode MODE-IREFS/MODE-IREF
TimingEvent = TIMING-EVENT | =event; offset OFFSET; period PERIOD
TransformerHardErrorEvent = TRANSFORMER-HARD-ERROR-EVENT | =event; operation OPERATION-IREF; required_trigger REQUIRED-TRIGGER-IREF; trigger TRIGGER-IREF
PortDefinedArgumentValue = PORT-DEFINED-ARGUMENT-VALUE | value VALUE/*; value_type VALUE-TYPE-TREF
CommunicationBufferLocking = COMMUNICATION-BUFFER-LOCKING | support_buffer_locking SUPPORT-BUFFER-LOCKING
PortApiOption = PORT-API-OPTION | enable_take_address ENABLE-TAKE-ADDRESS; error_handling ERROR-HANDLING; indirect_api INDIRECT-API; port_arg_values PORT-ARG-VALUES/*; port PORT-REF; supported_features SUPPORTED-FEATURES/*; transformer_status_forwarding TRANSFORMER-STATUS-FORWARDING
AsynchronousServerCallPoint = ASYNCHRONOUS-SERVER-CALL-POINT | return_value_provision RETURN-VALUE-PROVISION; operation OPERATION-IREF; timeout TIMEOUT
SynchronousServerCallPoint = SYNCHRONOUS-SERVER-CALL-POINT | return_value_provision RETURN-VALUE-PROVISION; operation OPERATION-IREF; timeout TIMEOUT; called_from_within_exclusive_area CALLED-FROM-WITHIN-EXCLUSIVE-AREA-REF
AsynchronousServerCallResultPoint = ASYNCHRONOUS-SERVER-CALL-RESULT-POINT | return_value_provision RETURN-VALUE-PROVISION; async_server_call_point ASYNCHRONOUS-SERVER-CALL-POINT-REF
ExternalTriggeringPointIdent = - | return_value_provision RETURN-VALUE-PROVISION
ExternalTriggeringPoint = EXTERNAL-TRIGGERING-POINT | ident IDENT; trigger TRIGGER-IREF
InternalTriggeringPoint = INTERNAL-TRIGGERING-POINT | return_value_provision RETURN-VALUE-PROVISION; sw_impl_policy SW-IMPL-POLICY
ModeAccessPointIdent = - | return_value_provision RETURN-VALUE-PROVISION
ModeAccessPoint = MODE-ACCESS-POINT | ident IDENT; mode_group MODE-GROUP-IREF/*
ModeSwitchPoint = MODE-SWITCH-POINT | return_value_provision RETURN-VALUE-PROVISION; mode_group MODE-GROUP-IREF
WaitPoint = WAIT-POINT | timeout TIMEOUT; trigger TRIGGER-REF
Annotation = ANNOTATION | label LABEL; origin ANNOTATION-ORIGIN; text ANNOTATION-TEXT
DocumentationBlock = - | elements +*
MultilanguageLongName = - | elements +*
MultiLanguageOverviewParagraph = - | elements +*
MultiLanguageParagraph = P | semantic_information @SI; view @VIEW; page_break @BREAK; keep_with_previous @KEEP-WITH-PREVIOUS; help_entry @HELP-ENTRY; elements +*
MultiLanguageVerbatim = VERBATIM | semantic_information @SI; view @VIEW; page_break @BREAK; keep_with_previous @KEEP-WITH-PREVIOUS; allow_break @ALLOW-BREAK; float @FLOAT; help_entry @HELP-ENTRY; page_wide @PGWIDE; elements +*
LanguageLongName = L-4 | language @L; parts ~
LanguageParagraph = L-1 | language @L; parts ~
LanguageOverviewParagraph = L-2 | language @L; parts ~
LanguageVerbatim = L-5 | language @L; parts ~
SingleLanguageUnitNames = - | parts ~
EmphasisText = E | color @COLOR; font @FONT; type @TYPE; elements ~
TechnicalTerm = TT | tex_render @TEX-RENDER; type @TYPE; text ~
Subscript = SUB | text ~
Superscript = SUP | text ~
IndexEntry = IE | text ~
Break = BR |
Package = AR-PACKAGE | elements ELEMENTS/*; packages AR-PACKAGES/*
'''

# what every element with a name has in front of its own fields
COMMON = [('long_name', 'LONG-NAME'), ('desc', 'DESC'), ('category', 'CATEGORY'), ('introduction', 'INTRODUCTION'),
          ('annotations', 'ANNOTATIONS/*')]


def _table():
    out = {}
    for line in SCHEMA.strip().splitlines():
        head, _, body = line.partition('|')
        name, tag = [s.strip() for s in head.split('=')]
        fields = []
        for f in body.split(';'):
            f = f.strip()
            if f[:1] == '=':
                fields.append((None, f[1:]))
            elif f:
                key, where = f.rsplit(' ', 1)
                fields.append((key, where))
        out[name] = (None if tag == '-' else tag, fields)
    return out


FORMS = _table()
MEMBER_TEXT = {}


def member_text(m):
    enum = type(m).__name__
    if enum not in MEMBER_TEXT:
        MEMBER_TEXT[enum] = {v: t for t, v in texts_of(enum)[0].items()}
    return MEMBER_TEXT[enum][m]


class Node:
    def __init__(self, tag, attrs=(), kids=(), leaf=None, mixed=False):
        self.tag = tag
        self.attrs = list(attrs)      # (name, value)
        self.kids = list(kids)        # nodes, and texts when mixed
        self.leaf = leaf              # value
        self.mixed = mixed


def is_object(v):
    return isinstance(v, ar_element.ARObject) and not isinstance(v, ar_ref.BaseRef) and \
        not isinstance(v, ar_element.NumericalValue)


def leaf(tag, v):
    if isinstance(v, ar_ref.BaseRef):
        return Node(tag, [('DEST', v.dest)], leaf=v.value)
    if isinstance(v, ar_element.NumericalValue):
        v = v.value
    return Node(tag, leaf=v)


def node(tag, v):
    return obj_node(v, tag) if is_object(v) else leaf(tag, v)


def own(v):
    """A value under the tag of its class"""
    return obj_node(v, FORMS[type(v).__name__][0])


def entries(v):
    if isinstance(v, dict):
        return list(v.values())
    return list(v) if isinstance(v, (list, tuple)) else [v]


def r_const(v):
    return [leaf('VT' if isinstance(v.value, str) else 'V', v.value)]


def r_limits(v):
    out = []
    for side, tag in (('lower', 'LOWER-LIMIT'), ('upper', 'UPPER-LIMIT')):
        limit = getattr(v, side + '_limit')
        if limit is not None:
            out.append(Node(tag, [('INTERVAL-TYPE', getattr(v, side + '_limit_type'))], leaf=limit))
    return out


def r_values(v):
    return [own(x) if is_object(x) else leaf('VT' if isinstance(x, str) else 'V', x) for x in v.values]


P_SIDE = [ar_enum.IdentifiableSubTypes.P_PORT_PROTOTYPE, ar_enum.IdentifiableSubTypes.ABSTRACT_PROVIDED_PORT_PROTOTYPE]


def side_of(v):
    return 'P' if v.port_ref.dest in P_SIDE else 'R'


def r_target_port(v):
    return [leaf(f'TARGET-{side_of(v)}-PORT-REF', v.port_ref)] if v.port_ref is not None else []


def r_inner_port(v):
    if v.inner_port is None:
        return []
    return [Node('INNER-PORT-IREF', kids=[
        obj_node(v.inner_port, side_of(v.inner_port) + '-PORT-IN-COMPOSITION-INSTANCE-REF')])]


def r_event(v):
    out = []
    if v.disabled_modes:
        out.append(Node('DISABLED-MODE-IREFS', kids=[obj_node(m, 'DISABLED-MODE-IREF') for m in v.disabled_modes]))
    if v.start_on_event is not None:
        out.append(leaf('START-ON-EVENT-REF', v.start_on_event))
    return out


RULES = {'const': r_const, 'limits': r_limits, 'values': r_values, 'target port': r_target_port,
         'inner port': r_inner_port, 'event': r_event}


def obj_node(v, tag):
    """How an object is to be written"""
    _, fields = FORMS[type(v).__name__]
    out = Node(tag)
    if isinstance(v, ar_element.Referrable):
        out.kids.append(leaf('SHORT-NAME', v.name))
    if isinstance(v, ar_element.Identifiable):
        if v.uuid is not None:
            out.attrs.append(('UUID', v.uuid))
        fields = COMMON + fields
    for key, where in fields:
        if key is None:
            out.kids += RULES[where](v)
            continue
        x = getattr(v, key)
        if x is None or (isinstance(x, (list, tuple, dict)) and len(x) == 0):
            continue
        if where[0] == '@':
            out.attrs.append((where[1:], x))
        elif where == '~':
            out.mixed = True
            out.kids += [own(p) if is_object(p) else p for p in entries(x)]
        elif where[0] == '+':
            out.kids += [own(e) if where == '+*' else node(where[1:], e) for e in entries(x)]
        elif '/' in where:
            outer, item = where.split('/')
            out.kids.append(Node(outer, kids=[own(e) if item == '*' else node(item, e) for e in entries(x)]))
        else:
            out.kids.append(node(where, x))
    return out


NS = ''


def plain(tag, ns):
    return tag[len(ns):] if ns and tag[:len(ns)] == ns else tag


def compare(ctx, e, want, where, ns=''):
    """An element an XML parser found against the one the schema asks for"""
    where = where + '/' + want.tag
    ctx.check(plain(e.tag, ns) == want.tag, where + ': tag')
    names = [n for n, _ in want.attrs]
    ctx.check(sorted(e.attrib.keys()) == sorted(names), where + ': attributes')
    for n, v in want.attrs:
        same_text(ctx, e.get(n), v, f'{where}@{n}')
    nodes = list(e)
    if want.leaf is not None:
        ctx.check(len(nodes) == 0, where + ': elements in a value')
        same_text(ctx, e.text, want.leaf, where)
        return
    expected = [k for k in want.kids if isinstance(k, Node)]
    ctx.check([plain(n.tag, ns) for n in nodes] == [k.tag for k in expected], where + ': children and their order')
    if want.mixed:
        texts = ['']
        for k in want.kids:
            if isinstance(k, Node):
                texts.append('')
            else:
                texts[-1] = texts[-1] + k
        for got, text in zip([e.text] + [n.tail for n in nodes], texts):
            same_text(ctx, got, text, where)
    else:
        for t in [e.text] + [n.tail for n in nodes]:
            ctx.check(t is None or t.strip() == '', where + ': text between elements')
    for n, k in zip(nodes, expected):
        compare(ctx, n, k, where, ns)


def same_text(ctx, got, v, where):
    """The text of a value"""
    if isinstance(v, ar_enum.Enum):
        ctx.check(got == member_text(v), where + ': name of the member')
    elif isinstance(v, bool):
        ctx.check(got == ('true' if v else 'false'), where + ': boolean')
    elif isinstance(v, str):
        ctx.check((got or '') == '' if len(v) == 0 else got is not None and ctx.eq(got, v), where + ': text')
    elif isinstance(v, float):
        ctx.check(got is not None and ctx.eq(float(got), v), where + ': number')
    else:
        ctx.check(got is not None and ctx.eq(int(got), v), where + ': number')


# ---- S01

IDENTIFIABLE = [n for n in spec.CLASSES if spec.CLASSES[n].ident == 'I' and n in FORMS]


def written(ctx, name, obj):
    outer, whole, _ = roundtrip.wrapped(name, obj)
    xml = roundtrip.write(outer, whole)
    tag = roundtrip.TAGS.get(outer) or FORMS[outer][0]
    compare(ctx, etree.fromstring(bytes(xml, encoding='utf-8')), obj_node(whole, tag), '')


def t_each(ctx, name, keys):
    """One field at a time"""
    k = ctx.pick('field', keys)
    obj, _ = Builder(ctx).make(name, 'x', {k: 'lite'} if k else {}, 'lite')
    written(ctx, name, obj)
    ctx.reach('end')


def t_together(ctx, name, combos):
    combo = combos[ctx.pick('fields', list(range(len(combos))))]
    obj, _ = Builder(ctx).make(name, 'x', {k: 'mark' for k in combo}, 'mark')
    written(ctx, name, obj)
    ctx.reach('end')


def t_parts(ctx, name, key):
    """Mixed content of every shape"""
    obj, _ = Builder(ctx).make(name, 'x', {key: 'full'}, 'mark')
    written(ctx, name, obj)
    ctx.reach('end')


def common_field(ctx, key):
    if key == 'long_name':
        return ar_element.MultilanguageLongName((ar_enum.Language.EN, ctx.text(key, 1, 1, 'safe')))
    if key == 'desc':
        return ar_element.MultiLanguageOverviewParagraph((ar_enum.Language.EN, ctx.text(key, 1, 1, 'safe')))
    if key == 'introduction':
        return ar_element.DocumentationBlock(
            ar_element.MultiLanguageParagraph((ar_enum.Language.EN, ctx.text(key, 1, 1, 'safe'))))
    if key == 'annotations':
        return [ar_element.Annotation(origin=ctx.text(key, 1, 1, 'safe')), ar_element.Annotation(origin='Second')]
    return ctx.text(key, 1, 1, 'safe')


def t_common(ctx, names):
    """The part all named elements share: which of it is there is chosen freely"""
    name = names[ctx.pick('class', list(range(len(names))))]
    keys = [k for k in ('long_name', 'desc', 'category', 'introduction', 'annotations', 'uuid') if ctx.flag(k + '?')]
    kw = {k: common_field(ctx, k) for k in keys}
    if name == 'Package':
        pkg = ar_element.Package('Name', **kw)
        pkg.append(ar_element.SwAddrMethod('M'))
        pkg.append(ar_element.Package('Sub'))
        xml = autosar.xml.Writer().write_str(ar_document.Document([pkg]))
        root = etree.fromstring(bytes(xml, encoding='utf-8'))
        compare(ctx, root.find('AR-PACKAGES/AR-PACKAGE'), own(pkg), '')
        ctx.reach('end')
        return
    opt = roundtrip.optional(name)
    last = opt[-1:] if name not in ('CompuMethod',) else ['unit_ref']
    obj, _ = Builder(ctx).make(name, 'x', {k: 'mark' for k in last}, 'mark', extra=kw)
    written(ctx, name, obj)
    ctx.reach('end')


NAMESPACE = 'http://autosar.org/schema/r4.0'
LOCATION = '{http://www.w3.org/2001/XMLSchema-instance}schemaLocation'
SCHEMA_FILES = {47: 'AUTOSAR_00047.xsd', 48: 'AUTOSAR_00048.xsd', 49: 'AUTOSAR_00049.xsd', 50: 'AUTOSAR_00050.xsd',
                51: 'AUTOSAR_00051.xsd'}


def t_document(ctx, tree):
    """The root element and the tree of packages"""
    count = [0]
    version, attributes = None, False
    if not tree:
        version = ctx.pick('version', [None] + sorted(SCHEMA_FILES))
        attributes = ctx.flag('attributes')
    doc = ar_document.Document() if version is None else ar_document.Document(schema_version=version)

    def package(path, depth):
        count[0] += 1
        pkg = ar_element.Package(ctx.ident(path, 1) + str(count[0]) if tree else f'P{count[0]}')
        if not tree:
            return pkg
        for i in range(ctx.pick(path + '.elements', [0, 1, 2] if depth == 0 else [0, 1])):
            pkg.append(ar_element.SwAddrMethod('M' + str(i)) if i else ar_element.Unit('U', factor=2))
        if depth < 2:
            for i in range(ctx.pick(path + '.packages', [0, 1, 2] if depth == 0 else [0, 1])):
                pkg.append(package(f'{path}.{i}', depth + 1))
        return pkg

    n = ctx.pick('packages', [1, 2] if tree else [0, 1])
    pkgs = [package('p' + str(i), i) for i in range(n)]
    for p in pkgs:
        doc.append(p)
    xml = autosar.xml.Writer().write_str(doc, skip_root_attr=not attributes)
    ctx.check(xml.startswith('<?xml version="1.0" encoding="utf-8"?>'), 'XML declaration')
    root = etree.fromstring(bytes(xml, encoding='utf-8'))
    ns = ''
    if attributes:
        ns = '{' + NAMESPACE + '}'
        ctx.check(list(root.attrib.keys()) == [LOCATION], 'attributes of the root')
        ctx.check(root.get(LOCATION) == NAMESPACE + ' ' + SCHEMA_FILES[version or 51], 'schema location')
    else:
        ctx.check(len(root.attrib.keys()) == 0, 'attributes of the root')
    ctx.check(root.tag == ns + 'AUTOSAR', 'root element')
    tops = list(root)
    ctx.check([t.tag for t in tops] == ([ns + 'AR-PACKAGES'] if n else []), 'packages of the document')
    if n:
        compare(ctx, tops[0], Node('AR-PACKAGES', kids=[own(p) for p in pkgs]), '', ns)
    ctx.reach('end')


SKIP_TOGETHER = {'AutosarVariableRef', 'AutosarParameterRef'}
MIXED = [('LanguageLongName', 'parts'), ('LanguageParagraph', 'parts'), ('LanguageOverviewParagraph', 'parts'),
         ('LanguageVerbatim', 'parts'), ('SingleLanguageUnitNames', 'parts')]


def cases(prop, tier):
    deep = tier == 'thorough'
    out = [Case('document', t_document, tree=False), Case('packages', t_document, tree=True)]
    for i in range(0, len(IDENTIFIABLE) + 1, 8):
        out.append(Case(f'common:{i // 8}', t_common, names=(IDENTIFIABLE + ['Package'])[i:i + 8], limits={'weight': 40}))
    for name in spec.CLASSES:
        keys = roundtrip.optional(name)
        out.append(Case(f'{name}:each', t_each, name=name, keys=[''] + keys,
                        limits={'weight': 1 + len(keys)}))
        combos = roundtrip.combos_of(keys, 2) + [tuple(k for k in keys if k != skip) for skip in [''] + keys] + \
            (roundtrip.combos_of(keys, 3) if deep else [])
        if len(keys) >= 2:
            out.append(Case(f'{name}:together', t_together, name=name, combos=combos,
                            limits={'weight': len(combos)}))
    out += [Case(f'{n}:parts', t_parts, name=n, key=k) for n, k in MIXED]
    return out
