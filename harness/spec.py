"""
Hand-written table of the model: for every writable class its constructor parameters
with the kind of value each one takes.  (Not derived from the code at run time.)

Kinds
  t          text                         b      bool
  i u        integer / non-negative int   n      int or float      f  float (int accepted)
  e:X        member of enum X             r:X    reference object  rs:X  reference object or path
  o:A|B      object of a class            vs     value specification
  l:K  s:K   list of K / one K or list of K
  *x         built by harness.build.k_x
"""

# class -> (identifiable?, "key kind; key kind ...").   I identifiable, R referrable (name only), - neither
TABLE = '''
CompuMethod I int_to_phys o:Computation; phys_to_int o:Computation; unit_ref r:UnitRef; display_format *dispfmt
DataFilter - data_filter_type e:DataFilterType; min_val i; max_val i; mask i; offset u; period u; x i
AutosarEngineeringObject - label t; category t
Code I artifact_descriptors s:o:AutosarEngineeringObject
ApplicationArrayDataType I dynamic_array_size_profile t; element o:ApplicationArrayElement; sw_data_def_props *props
ApplicationRecordDataType I elements s:o:ApplicationRecordElement; sw_data_def_props *props
ApplicationPrimitiveDataType I sw_data_def_props *props
SwBaseType I size u; max_size u; encoding t; alignment u; byte_order e:ByteOrder; native_declaration t
SwAddrMethod I
ImplementationDataType I dynamic_array_size_profile t; is_struct_with_optional_element b; sub_elements l:o:ImplementationDataTypeElement; symbol_props o:SymbolProps; type_emitter t; sw_data_def_props *props
DataTypeMappingSet I data_type_maps s:o:DataTypeMap
DataConstraint I rules l:o:DataConstraintRule
Unit I display_name *unitname; factor f; offset f; physical_dimension_ref rs:PhysicalDimensionRef
ConstantSpecification I value vs
NvDataInterface I data_elements s:o:VariableDataPrototype; is_service b; service_kind e:ServiceKind
ParameterInterface I parameters s:o:ParameterDataPrototype; is_service b; service_kind e:ServiceKind
SenderReceiverInterface I data_elements s:o:VariableDataPrototype; invalidation_policies s:o:InvalidationPolicy; is_service b; service_kind e:ServiceKind
ClientServerInterface I operations s:o:ClientServerOperation; possible_errors s:o:ApplicationError; is_service b; service_kind e:ServiceKind
ModeSwitchInterface I mode_group o:ModeDeclarationGroupPrototype; is_service b; service_kind e:ServiceKind
ModeDeclarationGroup I mode_declarations *modes; initial_mode_ref r:ModeDeclarationRef; mode_manager_error_behavior o:ModeErrorBehavior; mode_transitions s:o:ModeTransition; mode_user_error_behavior o:ModeErrorBehavior; on_transition_value u
E2EProfileCompatibilityProps I transit_to_invalid_extended b
ApplicationSoftwareComponentType I internal_behavior o:SwcInternalBehavior; symbol_props o:SymbolProps; ports s:o:ProvidePortPrototype|RequirePortPrototype|PRPortPrototype
CompositionSwComponentType I components s:o:SwComponentPrototype; connectors s:o:AssemblySwConnector|DelegationSwConnector|PassThroughSwConnector; ports s:o:ProvidePortPrototype|RequirePortPrototype|PRPortPrototype
SwcImplementation I behavior_ref r:SwcInternalBehaviorRef; code_descriptors s:o:Code; required_rte_vendor t
TextValueSpecification - label t; value t
NumericalValueSpecification - label t; value n
NotAvailableValueSpecification - label t; default_pattern u
ArrayValueSpecification - label t; elements l:vs
RecordValueSpecification - label t; fields l:vs
ApplicationValueSpecification - label t; category t; sw_axis_conts s:o:SwAxisCont; sw_value_cont o:SwValueCont
ConstantReference - constant_ref rs:ConstantRef; label t
ModeSwitchSenderComSpec - mode_group_ref rs:ModeDeclarationGroupPrototypeRef; enhanced_mode_api b; mode_switched_ack *msack; queue_length u
QueuedSenderComSpec - data_element_ref *deref; handle_out_of_range e:HandleOutOfRange; network_representation *netrep; transmission_acknowledge *txack; tranmsission_props o:TransmissionComSpecProps; uses_end_to_end_protection b
NonqueuedSenderComSpec - init_value vs; data_filter o:DataFilter; data_element_ref *deref; handle_out_of_range e:HandleOutOfRange; network_representation *netrep; transmission_acknowledge *txack; tranmsission_props o:TransmissionComSpecProps; uses_end_to_end_protection b
NvProvideComSpec - variable_ref r:VariableDataPrototypeRef; ram_block_init_value vs; rom_block_init_value vs
ParameterProvideComSpec - parameter_ref rs:ParameterDataPrototypeRef; init_value vs
ServerComSpec - operation_ref r:ClientServerOperationRef; queue_length u; transformation_com_spec_props s:o:EndToEndTransformationComSpecProps
QueuedReceiverComSpec - queue_length u; data_element_ref *deref; handle_out_of_range e:HandleOutOfRange; handle_out_of_range_status e:HandleOutOfRangeStatus; max_delta_counter_init u; max_no_new_repeated_data u; network_representation *netrep; reception_props o:ReceptionComSpecProps; replace_with o:VariableAccess; sync_counter_init u; transformation_com_spec_props s:o:EndToEndTransformationComSpecProps; uses_end_to_end_protection b
NonqueuedReceiverComSpec - alive_timeout f; enable_update b; data_filter o:DataFilter; handle_data_status b; handle_never_received b; handle_timeout_type e:HandleTimeout; init_value vs; timeout_substitution_value vs; data_element_ref *deref; handle_out_of_range e:HandleOutOfRange; handle_out_of_range_status e:HandleOutOfRangeStatus; max_delta_counter_init u; max_no_new_repeated_data u; network_representation *netrep; reception_props o:ReceptionComSpecProps; replace_with o:VariableAccess; sync_counter_init u; transformation_com_spec_props s:o:EndToEndTransformationComSpecProps; uses_end_to_end_protection b
NvRequireComSpec - variable_ref r:VariableDataPrototypeRef; init_value vs
ParameterRequireComSpec - parameter_ref rs:ParameterDataPrototypeRef; init_value vs
ModeSwitchReceiverComSpec - mode_group_ref rs:ModeDeclarationGroupPrototypeRef; enhanced_mode_api b; supports_async b
ClientComSpec - operation_ref r:ClientServerOperationRef; e2e_call_respone_timeout f; transformation_com_spec_props s:o:EndToEndTransformationComSpecProps
Annotation - label o:MultilanguageLongName; origin t; text o:DocumentationBlock
Break -
DocumentationBlock - elements *docelems
EmphasisText - elements! *emph; color t; font e:EmphasisFont; type e:EmphasisType
IndexEntry - text! t
MultilanguageLongName - elements *langs_long
MultiLanguageOverviewParagraph - elements *langs_overview
MultiLanguageParagraph - elements *langs_para; help_entry t; page_break e:PageBreak; keep_with_previous e:KeepWithPrevious; semantic_information t; view t
MultiLanguageVerbatim - elements *langs_verb; allow_break t; float e:Float; page_wide e:PageWide; help_entry t; page_break e:PageBreak; keep_with_previous e:KeepWithPrevious; semantic_information t; view t
LanguageLongName - language! e:Language; parts *parts_long
LanguageParagraph - language! e:Language; parts *parts_para
LanguageOverviewParagraph - language! e:Language; parts *parts_overview
LanguageVerbatim - language! e:Language; parts *parts_verb
SingleLanguageUnitNames - parts *parts_unit
Superscript - text! t
Subscript - text! t
TechnicalTerm - text! t; tex_render t; type t
Computation - compu_scales l:o:CompuScale; default_value *cconst
CompuRational - numerator! *numtuple; denominator *numtuple
CompuConst - value! *constval
CompuScale - content o:CompuConst|CompuRational; limits *limits; label t; symbol t; desc o:MultiLanguageOverviewParagraph; mask i; inverse_value *cconst
ScaleConstraint - label t; desc o:MultiLanguageOverviewParagraph; limits *limits; validity e:ScaleConstraintValidity
InternalConstraint - limits *limits; scale_constr *scaleconstrs; max_gradient n; max_diff n; monotony e:Monotony
PhysicalConstraint - limits *limits; scale_constr *scaleconstrs; max_gradient n; max_diff n; monotony e:Monotony; unit_ref r:UnitRef
DataConstraintRule - internal o:InternalConstraint; physical o:PhysicalConstraint; level i
SwDataDefPropsConditional - display_presentation e:DisplayPresentation; step_size f; annotations s:o:Annotation; sw_addr_method_ref rs:SwAddrMethodRef; base_type_ref r:SwBaseTypeRef; compu_method_ref rs:CompuMethodRef; data_constraint_ref rs:DataConstraintRef; impl_data_type_ref rs:ImplementationDataTypeRef; unit_ref rs:UnitRef; alignment *alignment; bit_representation o:SwBitRepresentation; calibration_access e:SwCalibrationAccess; text_props o:SwTextProps; display_format *dispfmt; impl_policy e:SwImplPolicy; additional_native_type_qualifier t; intended_resolution n; interpolation_method t; is_virtual b; ptr_target_props o:SwPointerTargetProps
SwBitRepresentation - position i; num_bits i
SwTextProps - array_size_semantics e:ArraySizeSemantics; max_text_size i; base_type_ref rs:SwBaseTypeRef; fill_char i
SwPointerTargetProps - target_category t; sw_data_def_props *props; function_ptr_signature_ref r:FunctionPtrSignatureRef
SymbolProps R symbol t
ImplementationDataTypeElement I sw_data_def_props *props; array_size u; array_impl_policy e:ArrayImplPolicy; array_size_handling e:ArraySizeHandling; array_size_semantics e:ArraySizeSemantics; sub_elements l:o:ImplementationDataTypeElement; is_optional b
ApplicationArrayElement I max_number_of_elements u; array_size_handling e:ArraySizeHandling; array_size_semantics e:ArraySizeSemantics; index_data_type_ref r:IndexDataTypeRef; type_ref r:ApplicationDataTypeRef; sw_data_def_props *props
ApplicationRecordElement I is_optional b; type_ref r:ApplicationDataTypeRef; sw_data_def_props *props
DataTypeMap - appl_data_type_ref r:ApplicationDataTypeRef; impl_data_type_ref r:ImplementationDataTypeRef
ValueList - values *valuelist
VariableDataPrototype I init_value vs; type_ref r:AutosarDataTypeRef; sw_data_def_props *props
ParameterDataPrototype I init_value vs; type_ref r:AutosarDataTypeRef; sw_data_def_props *props
ArgumentDataPrototype I direction e:ArgumentDirection; server_arg_impl_policy e:ServerArgImplPolicy; type_ref r:AutosarDataTypeRef; sw_data_def_props *props
ModeRequestTypeMap - implementation_data_type r:ImplementationDataTypeRef; mode_group r:ModeDeclarationGroupRef
SwValues - values *swvalues
ValueGroup - label *grouplabel; values *groupvalues
SwAxisCont - category e:CalibrationAxisCategory; unit_ref r:UnitRef; unit_display_name o:SingleLanguageUnitNames; sw_axis_index *axisindex; sw_array_size o:ValueList; sw_values_phys o:SwValues
SwValueCont - unit_ref r:UnitRef; unit_display_name o:SingleLanguageUnitNames; sw_array_size o:ValueList; sw_values_phys o:SwValues
InvalidationPolicy - data_element_ref r:VariableDataPrototypeRef; handle_invalid e:HandleInvalid
ApplicationError I error_code i
ClientServerOperation I arguments s:o:ArgumentDataPrototype; diag_arg_integrity b; fire_and_forget b; possible_error_refs s:rs:ApplicationErrorRef
ModeDeclaration I value u
ModeErrorBehavior - default_mode_ref r:ModeDeclarationRef; error_reaction_policy e:ModeErrorReactionPolicy
ModeTransition I entered_mode_ref r:ModeDeclarationRef; exited_mode_ref r:ModeDeclarationRef
ModeDeclarationGroupPrototype I type_ref r:ModeDeclarationGroupRef; calibration_access e:SwCalibrationAccess
EndToEndTransformationComSpecProps - clear_from_valid_to_invalid b; disable_e2e_check b; disable_e2e_state_machine b; e2e_profile_compatibility_props_ref r:E2EProfileCompatibilityPropsRef; max_delta_counter u; max_error_state_init u; max_error_state_invalid u; max_error_state_valid u; max_no_new_repeated_data u; min_ok_state_init u; min_ok_state_invalid u; min_ok_state_valid u; sync_counter_init u; window_size u; window_size_init u; window_size_invalid u; window_size_valid u; desc *desc; category t; introduction o:DocumentationBlock
ModeSwitchedAckRequest - timeout f
TransmissionAcknowledgementRequest - timeout f
TransmissionComSpecProps - data_update_period f; minimum_send_interval f; transmission_mode e:TransmissionMode
ReceptionComSpecProps - data_update_period f; timeout f
ProvidePortPrototype I port_interface_ref r:PortInterfaceRef; com_spec s:*pcomspec
RequirePortPrototype I port_interface_ref r:PortInterfaceRef; com_spec s:*rcomspec; allow_unconnected b
PRPortPrototype I port_interface_ref r:PortInterfaceRef; provided_com_spec s:*pcomspec; required_com_spec s:*rcomspec
SwComponentPrototype I type_ref r:SwComponentTypeRef
PortInCompositionTypeInstanceRef - component_ref! r:SwComponentPrototypeRef; port_ref! r:PortPrototypeRef
AssemblySwConnector I provide_port *pportiref; require_port *rportiref
DelegationSwConnector I inner_port *portiref; outer_port r:PortPrototypeRef
PassThroughSwConnector I provide_port r:PortPrototypeRef; require_port r:PortPrototypeRef
POperationInAtomicSwcInstanceRef - context_port r:AbstractProvidedPortPrototypeRef; target_provided_operation rs:ClientServerOperationRef
PModeGroupInAtomicSwcInstanceRef - context_port r:AbstractProvidedPortPrototypeRef; target_mode_group rs:ModeDeclarationGroupPrototypeRef
PTriggerInAtomicSwcTypeInstanceRef - context_port r:AbstractProvidedPortPrototypeRef; target_trigger rs:TriggerRef
ROperationInAtomicSwcInstanceRef - context_port r:AbstractRequiredPortPrototypeRef; target_required_operation rs:ClientServerOperationRef
RTriggerInAtomicSwcInstanceRef - context_port r:AbstractRequiredPortPrototypeRef; target_trigger rs:TriggerRef
RVariableInAtomicSwcInstanceRef - context_port r:AbstractRequiredPortPrototypeRef; target_data_element rs:VariableDataPrototypeRef
RModeInAtomicSwcInstanceRef - context_port r:AbstractRequiredPortPrototypeRef; context_mode_declaration_group_prototype r:ModeDeclarationGroupPrototypeRef; target_mode_declaration r:ModeDeclarationRef
RModeGroupInAtomicSwcInstanceRef - context_port r:AbstractRequiredPortPrototypeRef; target_mode_group rs:ModeDeclarationGroupPrototypeRef
ArVariableInImplementationDataInstanceRef - port_prototype_ref r:PortPrototypeRef; root_variable_data_prototype_ref r:VariableDataPrototypeRef; context_data_prototype_refs s:r:AbstractImplementationDataTypeElementRef; target_data_prototype_ref r:AbstractImplementationDataTypeElementRef
VariableInAtomicSWCTypeInstanceRef - port_prototype_ref r:PortPrototypeRef; root_variable_data_prototype_ref r:VariableDataPrototypeRef; context_data_prototype_refs s:r:ApplicationCompositeElementDataPrototypeRef; target_data_prototype_ref r:DataPrototypeRef
AutosarVariableRef - ar_variable_in_impl_datatype o:ArVariableInImplementationDataInstanceRef; ar_variable_iref o:VariableInAtomicSWCTypeInstanceRef; local_variable_ref r:VariableDataPrototypeRef
VariableAccess I accessed_variable o:AutosarVariableRef; scope e:VariableAccessScope
SwcInternalBehavior I events s:*event; runnables s:o:RunnableEntity; port_api_options *portapi; data_type_mappings s:r:DataTypeMappingSetRef; exclusive_areas s:o:ExclusiveArea
ExclusiveArea I
ExecutableEntityActivationReason R bit_position u; symbol t
ExclusiveAreaRefConditional - exclusive_area rs:ExclusiveAreaRef
RunnableEntityArgument - symbol t
RunnableEntity I argument s:o:RunnableEntityArgument; async_server_call_result_point s:o:AsynchronousServerCallResultPoint; can_be_invoked_concurrently b; data_read_access s:o:VariableAccess; data_receive_point_by_argument s:o:VariableAccess; data_receive_point_by_value s:o:VariableAccess; data_send_point s:o:VariableAccess; data_write_access s:o:VariableAccess; external_triggering_point s:o:ExternalTriggeringPoint; internal_triggering_point s:o:InternalTriggeringPoint; mode_access_point s:o:ModeAccessPoint; mode_switch_point s:o:ModeSwitchPoint; parameter_access s:o:ParameterAccess; read_local_variable s:o:VariableAccess; write_local_variable s:o:VariableAccess; server_call_point s:o:AsynchronousServerCallPoint|SynchronousServerCallPoint; wait_point s:o:WaitPoint; symbol t; activation_reasons s:o:ExecutableEntityActivationReason; can_enter_leave *exareas; exclusive_area_nesting_order s:r:ExclusiveAreaNestingOrderRef; minimum_start_interval f; reentrancy_level e:ReentrancyLevel; runs_insides *exareas; sw_addr_method rs:SwAddrMethodRef
AsynchronousServerCallReturnsEvent I start_on_event rs:RunnableEntityRef; event_source rs:AsynchronousServerCallResultPointRef; disabled_modes s:o:RModeInAtomicSwcInstanceRef
BackgroundEvent I start_on_event rs:RunnableEntityRef; disabled_modes s:o:RModeInAtomicSwcInstanceRef
DataReceiveErrorEvent I start_on_event rs:RunnableEntityRef; data o:RVariableInAtomicSwcInstanceRef; disabled_modes s:o:RModeInAtomicSwcInstanceRef
DataReceivedEvent I start_on_event rs:RunnableEntityRef; data o:RVariableInAtomicSwcInstanceRef; disabled_modes s:o:RModeInAtomicSwcInstanceRef
DataSendCompletedEvent I start_on_event rs:RunnableEntityRef; event_source rs:VariableAccessRef; disabled_modes s:o:RModeInAtomicSwcInstanceRef
DataWriteCompletedEvent I start_on_event rs:RunnableEntityRef; event_source rs:VariableAccessRef; disabled_modes s:o:RModeInAtomicSwcInstanceRef
ExternalTriggerOccurredEvent I start_on_event rs:RunnableEntityRef; trigger o:RTriggerInAtomicSwcInstanceRef; disabled_modes s:o:RModeInAtomicSwcInstanceRef
InitEvent I start_on_event rs:RunnableEntityRef; disabled_modes s:o:RModeInAtomicSwcInstanceRef
InternalTriggerOccurredEvent I start_on_event rs:RunnableEntityRef; event_source rs:InternalTriggeringPointRef; disabled_modes s:o:RModeInAtomicSwcInstanceRef
ModeSwitchedAckEvent I start_on_event rs:RunnableEntityRef; event_source rs:ModeSwitchPointRef; disabled_modes s:o:RModeInAtomicSwcInstanceRef
OperationInvokedEvent I start_on_event rs:RunnableEntityRef; operation o:POperationInAtomicSwcInstanceRef; disabled_modes s:o:RModeInAtomicSwcInstanceRef
SwcModeManagerErrorEvent I start_on_event rs:RunnableEntityRef; mode_group o:PModeGroupInAtomicSwcInstanceRef; disabled_modes s:o:RModeInAtomicSwcInstanceRef
SwcModeSwitchEvent I start_on_event rs:RunnableEntityRef; activation e:ModeActivationKind; mode *modeiref; disabled_modes s:o:RModeInAtomicSwcInstanceRef
TimingEvent I start_on_event rs:RunnableEntityRef; period f; offset f; disabled_modes s:o:RModeInAtomicSwcInstanceRef
TransformerHardErrorEvent I start_on_event rs:RunnableEntityRef; operation o:POperationInAtomicSwcInstanceRef; required_trigger o:RTriggerInAtomicSwcInstanceRef; trigger o:PTriggerInAtomicSwcTypeInstanceRef; disabled_modes s:o:RModeInAtomicSwcInstanceRef
PortDefinedArgumentValue - value vs; value_type rs:ImplementationDataTypeRef
CommunicationBufferLocking - support_buffer_locking e:SupportBufferLocking
PortApiOption - port r:PortPrototypeRef; enable_take_address b; indirect_api b; error_handling e:DataTransformationErrorHandling; port_arg_values s:o:PortDefinedArgumentValue; supported_features s:o:CommunicationBufferLocking; transformer_status_forwarding e:DataTransformationStatusForwarding
AsynchronousServerCallPoint I operation o:ROperationInAtomicSwcInstanceRef; timeout f; return_value_provision e:RteApiReturnValueProvision
SynchronousServerCallPoint I called_from_within_exclusive_area r:ExclusiveAreaNestingOrderRef; operation o:ROperationInAtomicSwcInstanceRef; timeout f; return_value_provision e:RteApiReturnValueProvision
AsynchronousServerCallResultPoint I async_server_call_point rs:AsynchronousServerCallPointRef; return_value_provision e:RteApiReturnValueProvision
ExternalTriggeringPointIdent I return_value_provision e:RteApiReturnValueProvision
ExternalTriggeringPoint - ident o:ExternalTriggeringPointIdent; trigger o:PTriggerInAtomicSwcTypeInstanceRef
InternalTriggeringPoint I sw_impl_policy e:SwImplPolicy; return_value_provision e:RteApiReturnValueProvision
ModeAccessPointIdent I return_value_provision e:RteApiReturnValueProvision
ModeAccessPoint - ident o:ModeAccessPointIdent; mode_group o:PModeGroupInAtomicSwcInstanceRef|RModeGroupInAtomicSwcInstanceRef
ModeSwitchPoint I mode_group o:PModeGroupInAtomicSwcInstanceRef; return_value_provision e:RteApiReturnValueProvision
ParameterInAtomicSwcTypeInstanceRef - port_prototype r:PortPrototypeRef; root_parameter_data_prototype r:DataPrototypeRef; context_data_prototype r:ApplicationCompositeElementDataPrototypeRef; target_data_prototype r:DataPrototypeRef
AutosarParameterRef - autosar_parameter o:ParameterInAtomicSwcTypeInstanceRef; local_parameter r:DataPrototypeRef
ParameterAccess I accessed_parameter o:AutosarParameterRef; sw_data_def_props *props; return_value_provision e:RteApiReturnValueProvision
WaitPoint I trigger r:RteEventRef; timeout f
'''


class Field:
    def __init__(self, key, kind):
        self.required = key.endswith('!')
        self.key = key.rstrip('!')
        self.kind = kind


class ClassSpec:
    def __init__(self, name, ident, fields):
        self.name = name
        self.ident = ident
        self.fields = fields


def _parse():
    out = {}
    for line in TABLE.strip().splitlines():
        parts = line.split(' ', 2)
        fields = []
        if len(parts) > 2:
            for f in parts[2].split(';'):
                key, kind = f.strip().split(' ', 1)
                fields.append(Field(key, kind.strip()))
        out[parts[0]] = ClassSpec(parts[0], parts[1].strip(), fields)
    return out


CLASSES = _parse()

# classes without an element writer of their own: written as part of another class
NESTED_ONLY = {'LanguageOverviewParagraph', 'CompuConst', 'ValueGroup', 'POperationInAtomicSwcInstanceRef',
               'PModeGroupInAtomicSwcInstanceRef', 'PTriggerInAtomicSwcTypeInstanceRef',
               'ROperationInAtomicSwcInstanceRef', 'RTriggerInAtomicSwcInstanceRef',
               'RVariableInAtomicSwcInstanceRef', 'ExclusiveArea', 'ExternalTriggeringPointIdent',
               'ModeAccessPointIdent', 'RModeInAtomicSwcInstanceRef', 'RModeGroupInAtomicSwcInstanceRef'}

VALUE_SPECS = ['TextValueSpecification', 'NumericalValueSpecification', 'NotAvailableValueSpecification',
               'ArrayValueSpecification', 'RecordValueSpecification', 'ApplicationValueSpecification',
               'ConstantReference']
P_COM_SPECS = ['ModeSwitchSenderComSpec', 'QueuedSenderComSpec', 'NonqueuedSenderComSpec', 'NvProvideComSpec',
               'ParameterProvideComSpec', 'ServerComSpec']
R_COM_SPECS = ['QueuedReceiverComSpec', 'NonqueuedReceiverComSpec', 'NvRequireComSpec', 'ParameterRequireComSpec',
               'ModeSwitchReceiverComSpec', 'ClientComSpec']
EVENTS = ['AsynchronousServerCallReturnsEvent', 'BackgroundEvent', 'DataReceiveErrorEvent', 'DataReceivedEvent',
          'DataSendCompletedEvent', 'DataWriteCompletedEvent', 'ExternalTriggerOccurredEvent', 'InitEvent',
          'InternalTriggerOccurredEvent', 'ModeSwitchedAckEvent', 'OperationInvokedEvent',
          'SwcModeManagerErrorEvent', 'SwcModeSwitchEvent', 'TimingEvent', 'TransformerHardErrorEvent']
