// Binding of the public API to the dynamic value tree (initially generated by tools/gen.py).

bind_default!(dt::acoustic_beam_data::AcousticBeamData, { beam_data_length, beam_id_number, pad2, fundamental_data_parameters });
rec_plain!(dt::acoustic_beam_data::AcousticBeamData, "AcousticBeamData");
bind_default!(dt::acoustic_beam_fundamental_parameter::AcousticBeamFundamentalParameter, { active_emission_parameter_index, scan_pattern, beam_center_azimuth, azimuthal_beamwidth, beam_center_de, de_beamwidth });
rec_plain!(dt::acoustic_beam_fundamental_parameter::AcousticBeamFundamentalParameter, "AcousticBeamFundamentalParameter");
bind_default!(dt::acoustic_emitter_system::AcousticEmitterSystem, { acoustic_name, acoustic_function, acoustic_id });
rec_field!(dt::acoustic_emitter_system::AcousticEmitterSystem, "AcousticEmitterSystem");
bind_default!(dt::acoustic_emitter_system_data::AcousticEmitterSystemData, { emitter_system_data_length, number_of_beams, pad2, acoustic_emitter_system, emitter_location, beam_records });
rec_plain!(dt::acoustic_emitter_system_data::AcousticEmitterSystemData, "AcousticEmitterSystemData");
bind_default!(dt::aggregate_id::AggregateId, { site, application, aggregate_id });
rec_field!(dt::aggregate_id::AggregateId, "AggregateId");
bind_default!(dt::aggregate_marking::AggregateMarking, { character_set, characters });
rec_field!(dt::aggregate_marking::AggregateMarking, "AggregateMarking");
bind_default!(dt::angular_velocity_vector::AngularVelocity, { rate_about_x_axis, rate_about_y_axis, rate_about_z_axis });
rec_plain_len!(dt::angular_velocity_vector::AngularVelocity, "AngularVelocity");
bind_default!(dt::apa_data::ApaData, { parameter_index, parameter_value });
rec_field_len!(dt::apa_data::ApaData, "ApaData");
bind_default!(dt::attribute_record::AttributeRecord, { record_type, record_length, record_specific_fields });
rec_field!(dt::attribute_record::AttributeRecord, "AttributeRecord");
bind_default!(dt::attribute_record_set::AttributeRecordSet, { entity_id, number_of_attribute_records, attribute_records });
rec_field!(dt::attribute_record_set::AttributeRecordSet, "AttributeRecordSet");
bind_default!(dt::beam_data::BeamData, { beam_azimuth_center, beam_azimuth_sweep, beam_elevation_center, beam_elevation_sweep, beam_sweep_sync });
rec_field_len!(dt::beam_data::BeamData, "BeamData");
bind_default!(dt::clock_time::ClockTime, { hour, time_past_hour });
rec_field!(dt::clock_time::ClockTime, "ClockTime");
bind_default!(dt::dead_reckoning_parameters::DeadReckoningParameters, { dead_reckoning_algorithm, dead_reckoning_other_parameters, entity_linear_acceleration, entity_angular_velocity });
rec_field_len!(dt::dead_reckoning_parameters::DeadReckoningParameters, "DeadReckoningParameters");
bind_default!(dt::directed_energy_damage::DirectedEnergyDamage, { record_type, record_length, damage_location, damage_diameter, temperature, component_identification, component_damage_status, component_visual_damage_status, component_visual_smoke_color, fire_event_id });
rec_field!(dt::directed_energy_damage::DirectedEnergyDamage, "DirectedEnergyDamage");
bind_default!(dt::electromagnetic_emission_beam_data::ElectromagneticEmissionBeamData, { beam_data_length, beam_id_number, beam_parameter_index, fundamental_parameter_data, beam_function, number_of_track_jam_targets, high_density_track_jam, pad4, jamming_mode_sequence, track_jam_targets });
rec_field!(dt::electromagnetic_emission_beam_data::ElectromagneticEmissionBeamData, "ElectromagneticEmissionBeamData");
bind_default!(dt::electromagnetic_emission_system_data::ElectromagneticEmissionSystemData, { system_data_length, number_of_beams, emissionspadding2, emitter_system, location, beam_data_records });
rec_field!(dt::electromagnetic_emission_system_data::ElectromagneticEmissionSystemData, "ElectromagneticEmissionSystemData");
bind_default!(dt::emitter_system::EmitterSystem, { emitter_name, function, emitter_id_number });
rec_plain_len!(dt::emitter_system::EmitterSystem, "EmitterSystem");
bind_default!(dt::entity_coordinate_vector::EntityCoordinateVector, { x_coordinate, y_coordinate, z_coordinate });
rec_field_len!(dt::entity_coordinate_vector::EntityCoordinateVector, "EntityCoordinateVector");
bind_default!(dt::entity_id::EntityId, { simulation_address, entity_id });
rec_field_len!(dt::entity_id::EntityId, "EntityId");
bind_default!(dt::entity_marking::EntityMarking, { entity_marking_character_set, entity_marking_string });
rec_field_len!(dt::entity_marking::EntityMarking, "EntityMarking");
bind_default!(dt::entity_type::EntityType, { kind, domain, country, category, subcategory, specific, extra });
rec_field_len!(dt::entity_type::EntityType, "EntityType");
bind_default!(dt::environment::Environment, { environment_type, length, index, padding });
rec_field!(dt::environment::Environment, "Environment");
bind_default!(dt::euler_angles::EulerAngles, { psi, theta, phi });
rec_field_len!(dt::euler_angles::EulerAngles, "EulerAngles");
bind_default!(dt::event_id::EventId, { simulation_address, event_identifier });
rec_field_len!(dt::event_id::EventId, "EventId");
bind_literal!(dt::datum_records::FixedDatumRecord, { datum_id, datum_value });
rec_field!(dt::datum_records::FixedDatumRecord, "FixedDatumRecord");
bind_default!(dt::fundamental_operational_data::FundamentalOperationalData, { system_status, data_field1, information_layers, data_field2, parameter1, parameter2, parameter3, parameter4, parameter5, parameter6 });
rec_field_len!(dt::fundamental_operational_data::FundamentalOperationalData, "FundamentalOperationalData");
bind_default!(dt::fundamental_parameter_data::FundamentalParameterData, { frequency, frequency_range, effective_radiated_power, pulse_repetition_frequency, pulse_width, beam_azimuth_center, beam_azimuth_sweep, beam_elevation_center, beam_elevation_sweep, beam_sweep_sync });
rec_field!(dt::fundamental_parameter_data::FundamentalParameterData, "FundamentalParameterData");
bind_default!(dt::iff_fundamental_parameter_data::IFFFundamentalParameterData, { erp, frequency, pgrf, pulse_width, burst_length, applicable_modes, system_specific_data });
rec_field_len!(dt::iff_fundamental_parameter_data::IFFFundamentalParameterData, "IFFFundamentalParameterData");
bind_default!(dt::intercom_communications_parameters::IntercomCommunicationsParameters, { record_type, record_length, record_specific_field });
rec_field!(dt::intercom_communications_parameters::IntercomCommunicationsParameters, "IntercomCommunicationsParameters");
bind_default!(dt::layer_header::LayerHeader, { layer_number, layer_specific_information, length });
rec_field_len!(dt::layer_header::LayerHeader, "LayerHeader");
bind_default!(dt::linear_acceleration::LinearAcceleration, { first_vector_component, second_vector_component, third_vector_component });
rec_field_len!(dt::linear_acceleration::LinearAcceleration, "LinearAcceleration");
bind_default!(dt::linear_segment_parameter::LinearSegmentParameter, { segment_number, segment_modification, general_segment_appearance, specific_segment_appearance, segment_location, segment_orientation, segment_length, segment_width, segment_height, segment_depth });
rec_field!(dt::linear_segment_parameter::LinearSegmentParameter, "LinearSegmentParameter");
bind_default!(dt::linear_velocity::LinearVelocity, { first_vector_component, second_vector_component, third_vector_component });
rec_field_len!(dt::linear_velocity::LinearVelocity, "LinearVelocity");
bind_default!(dt::minefield_identifier::MinefieldIdentifier, { simulation_address, minefield_number });
rec_field!(dt::minefield_identifier::MinefieldIdentifier, "MinefieldIdentifier");
bind_default!(dt::modulation_type::ModulationType, { spread_spectrum, major, detail, system });
rec_field!(dt::modulation_type::ModulationType, "ModulationType");
bind_default!(dt::munition_descriptor::MunitionDescriptor, { munition_type, warhead, fuse, quantity, rate });
rec_field!(dt::munition_descriptor::MunitionDescriptor, "MunitionDescriptor");
bind_default!(dt::named_location::NamedLocation, { station_name, station_number });
rec_field!(dt::named_location::NamedLocation, "NamedLocation");
bind_default!(dt::object_identifier::ObjectIdentifier, { simulation_address, object_number });
rec_field!(dt::object_identifier::ObjectIdentifier, "ObjectIdentifier");
bind_default!(dt::object_type::ObjectType, { domain, object_kind, category, subcategory });
rec_field!(dt::object_type::ObjectType, "ObjectType");
bind_default!(dt::point::Point, { x, y });
rec_field!(dt::point::Point, "Point");
bind_default!(dt::propulsion_system_data::PropulsionSystemData, { power_setting, engine_rpm });
rec_field_len!(dt::propulsion_system_data::PropulsionSystemData, "PropulsionSystemData");
bind_default!(dt::radio_entity_type::RadioEntityType, { entity_kind, domain, country, category, nomenclature_version, nomenclature });
rec_field!(dt::radio_entity_type::RadioEntityType, "RadioEntityType");
bind_default!(dt::record_specification::RecordSpecification, { number_of_record_sets, record_sets });
rec_field!(dt::record_specification::RecordSpecification, "RecordSpecification");
bind_literal!(dt::record_specification_element::RecordSpecificationElement, { record_id, record_set_serial_number, record_length, record_count, record_values });
rec_field!(dt::record_specification_element::RecordSpecificationElement, "RecordSpecificationElement");
bind_default!(dt::relationship::Relationship, { nature, position });
rec_field!(dt::relationship::Relationship, "Relationship");
bind_default!(dt::secondary_operational_data::SecondaryOperationalData, { operational_data1, operational_data2, number_of_iff_fundamental_parameter_records });
rec_field_len!(dt::secondary_operational_data::SecondaryOperationalData, "SecondaryOperationalData");
bind_default!(dt::shaft_rpms::ShaftRPMs, { current_shaft_rpms, ordered_shaft_rpms, shaft_rpm_rate_of_change });
rec_field_len!(dt::shaft_rpms::ShaftRPMs, "ShaftRPMs");
bind_default!(dt::simulation_address::SimulationAddress, { site_id, application_id });
rec_field_len!(dt::simulation_address::SimulationAddress, "SimulationAddress");
bind_default!(dt::simulation_id::SimulationIdentifier, { simulation_address, reference_number });
rec_field_len!(dt::simulation_id::SimulationIdentifier, "SimulationIdentifier");
bind_default!(dt::standard_variable_records::StandardVariableRecords, { record_type, record_length, record_specific_fields });
rec_field!(dt::standard_variable_records::StandardVariableRecords, "StandardVariableRecords");
bind_default!(dt::standard_variable_specification::StandardVariableSpecification, { number_of_standard_variable_records, standard_variable_records });
rec_field!(dt::standard_variable_specification::StandardVariableSpecification, "StandardVariableSpecification");
bind_default!(dt::supply_quantity::SupplyQuantity, { supply_type, quantity });
rec_field!(dt::supply_quantity::SupplyQuantity, "SupplyQuantity");
bind_default!(dt::system_id::SystemId, { system_type, system_name, system_mode, change_options });
rec_field_len!(dt::system_id::SystemId, "SystemId");
bind_default!(dt::track_jam_target::TrackJamTarget, { track_jam, emitter_id, beam_id });
rec_field!(dt::track_jam_target::TrackJamTarget, "TrackJamTarget");
bind_literal!(dt::datum_records::VariableDatumRecord, { datum_id, length_bits, value });
rec_field!(dt::datum_records::VariableDatumRecord, "VariableDatumRecord");
bind_default!(dt::variable_parameter::VariableParameter, { record_type, variable_parameter_field1, variable_parameter_field2, variable_parameter_field3, variable_parameter_field4 });
rec_field_len!(dt::variable_parameter::VariableParameter, "VariableParameter");
bind_default!(dt::variable_transmitter_parameters::VariableTransmitterParameters, { record_type, record_length, record_specific_fields });
rec_field!(dt::variable_transmitter_parameters::VariableTransmitterParameters, "VariableTransmitterParameters");
bind_default!(dt::vector3_double::Vector3Double, { x, y, z });
rec_plain_len!(dt::vector3_double::Vector3Double, "Vector3Double");
bind_default!(dt::vector3_float::Vector3Float, { x, y, z });
rec_field!(dt::vector3_float::Vector3Float, "Vector3Float");
bind_default!(dt::vectoring_nozzle_system_data::VectoringNozzleSystemData, { horizontal_deflection_angle, vertical_deflection_angle });
rec_field_len!(dt::vectoring_nozzle_system_data::VectoringNozzleSystemData, "VectoringNozzleSystemData");
bind_default!(dt::velocity_vector::VelocityVector, { first_vector_component, second_vector_component, third_vector_component });
rec_plain!(dt::velocity_vector::VelocityVector, "VelocityVector");
bind_default!(dt::world_coordinate::WorldCoordinate, { x, y, z });
rec_field_len!(dt::world_coordinate::WorldCoordinate, "WorldCoordinate");

bind_default!(od::distributed_emissions::ElectromagneticEmissionsPdu, { emitting_entity_id, event_id, state_update_indicator, number_of_systems, systems });
bind_default!(od::distributed_emissions::DesignatorPdu, { designating_entity_id, code_name, designated_entity_id, designator_code, designator_power, designator_wavelength, designator_spot_wrt_designated, designator_spot_location, dead_reckoning_algorithm, entity_linear_acceleration });
bind_default!(od::distributed_emissions::UnderwaterAcousticPdu, { emitting_entity_id, event_id, state_change_update_indicator, passive_parameter_index, propulsion_plant_configuration, number_of_shafts, number_of_apas, number_of_ua_emitter_systems, shaft_rpms, apa_data, emitter_systems });
bind_default!(od::distributed_emissions::IFFPdu, { emitting_entity_id, event_id, relative_antenna_location, system_id, system_designator, system_specific_data, fundamental_operational_data, layer_header, beam_data, secondary_operational_data, iff_parameters });
bind_default!(od::distributed_emissions::SupplementalEmissionPdu, { originating_entity_id, infrared_signature_representation_index, acoustic_signature_representation_index, radar_cross_section_signature_representation_index, number_of_propulsion_systems, number_of_vectoring_nozzle_systems, propulsion_system_data, vectoring_nozzle_system_data });
bind_default!(od::entity_information::EntityStatePdu, { entity_id, force_id, number_of_articulation_parameters, entity_type, alternative_entity_type, entity_linear_velocity, entity_location, entity_orientation, entity_appearance, dead_reckoning_parameters, entity_marking, entity_capabilities, articulation_parameter });
bind_default!(od::entity_information::CollisionPdu, { issuing_entity_id, colliding_entity_id, event_id, collision_type, velocity, mass, location_wrt_entity });
bind_default!(od::entity_information::CollisionElasticPdu, { issuing_entity_id, colliding_entity_id, event_id, contact_velocity, mass, location_of_impact, collision_intermediate_result_xx, collision_intermediate_result_xy, collision_intermediate_result_xz, collision_intermediate_result_yy, collision_intermediate_result_yz, collision_intermediate_result_zz, unit_surface_normal, coefficient_of_restitution });
bind_default!(od::entity_information::EntityStateUpdatePdu, { entity_id, number_of_variable_parameters, entity_linear_velocity, entity_location, entity_orientation, entity_appearance, variable_parameter_records });
bind_default!(od::entity_information::AttributePdu, { originating_simulation_address, attribute_record_pdu_type, attribute_record_protocol_version, master_attribute_record_type, action_code, number_of_attribute_record_sets, attribute_record_sets });
bind_default!(od::entity_management::AggregateStatePdu, { aggregate_id, force_id, aggregate_state, aggregate_type, formation, aggregate_marking, dimensions, orientation, center_of_mass, velocity, number_of_dis_aggregates, number_of_dis_entities, number_of_silent_aggregate_types, number_of_silent_entity_types, aggregate_id_list, entity_id_list, silent_aggregate_system_list, silent_entity_system_list, number_of_variable_datum_records, variable_datum_list });
bind_default!(od::entity_management::IsGroupOfPdu, { group_entity_id, grouped_entity_category, number_of_grouped_entities, latitude, longitude, grouped_entity_descriptions });
bind_default!(od::entity_management::TransferOwnershipPdu, { originating_id, receiving_id, request_id, required_reliability_service, transfer_type, transfer_entity_id, record_information });
bind_default!(od::entity_management::IsPartOfPdu, { originating_entity_id, receiving_entity_id, relationship, part_location, named_location_id, part_entity_type });
bind_default!(od::information_operations::InformationOperationsReportPdu, { originating_simulation_id, io_simulation_source, io_report_type, io_attacker_entity_id, primary_target_entity_id, io_records });
bind_default!(od::information_operations::InformationOperationsActionPdu, { originating_simulation_id, receiving_simulation_id, request_id, io_warfare_type, io_simulation_source, io_action_type, io_action_phase, io_attacker_entity_id, io_primary_target_entity_id, io_records });
bind_default!(od::logistics::ServiceRequestPdu, { receiving_entity_id, servicing_entity_id, service_type_requested, number_of_supply_types, supplies });
bind_default!(od::logistics::ResupplyOfferPdu, { receiving_entity_id, supplying_entity_id, number_of_supply_types, supplies });
bind_default!(od::logistics::ResupplyReceivedPdu, { receiving_entity_id, supplying_entity_id, number_of_supply_types, supplies });
bind_default!(od::logistics::ResupplyCancelPdu, { receiving_entity_id, supplying_entity_id });
bind_default!(od::logistics::RepairCompletePdu, { receiving_entity_id, repairing_entity_id, repair });
bind_default!(od::logistics::RepairResponsePdu, { receiving_entity_id, repairing_entity_id, repair_result });
bind_default!(od::minefield::MinefieldStatePdu, { minefield_id, minefield_sequence, force_id, number_of_perimeter_points, minefield_type, number_of_mine_types, minefield_location, minefield_orientation, appearance, protocol_mode, perimeter_points, mine_type });
bind_default!(od::minefield::MinefieldQueryPdu, { minefield_id, requesting_entity_id, request_id, number_of_perimeter_points, number_of_sensor_types, data_filter, requested_mine_type, requested_perimeter_points, sensor_types });
bind_default!(od::minefield::MinefieldDataPdu, { minefield_id, requesting_entity_id, minefield_sequence_number, request_id, pdu_sequence_number, number_of_pdus, number_of_mines_in_this_pdu, number_of_sensor_types, data_filter, mine_type, sensor_types, mine_location, ground_burial_depth_offset, water_burial_depth_offset, snow_burial_depth_offset, mine_orientation, thermal_contrast, reflectance, mine_emplacement_time, mine_entity_id, fusing, scalar_detection_coefficient, paint_scheme, number_of_trip_wires, number_of_vertices, vertices });
bind_default!(od::minefield::MinefieldResponseNackPdu, { minefield_id, requesting_entity_id, request_id, number_of_missing_pdus, missing_pdu_sequence_numbers });
bind_default!(od::radio_communications::TransmitterPdu, { entity_id, radio_id, radio_entity_type, transmit_state, input_source, number_of_variable_transmitter_parameters_records, antenna_location, relative_antenna_location, antenna_pattern_type, antenna_pattern_length, frequency, transmit_frequency_bandwidth, power, modulation_type, crypto_system, crypto_key_id, modulation_parameter_length, modulation_parameters, antenna_pattern, variable_transmitter_parameters });
bind_default!(od::radio_communications::SignalPdu, { entity_id, radio_id, encoding_scheme, tdl_type, sample_rate, data_length, samples, data });
bind_default!(od::radio_communications::ReceiverPdu, { entity_id, radio_id, receiver_state, received_power, transmitter_radio_reference_id, transmitter_radio_id });
bind_default!(od::radio_communications::IntercomSignalPdu, { intercom_reference_id, intercom_number, encoding_scheme, tdl_type, sample_rate, data_length, samples, data });
bind_default!(od::radio_communications::IntercomControlPdu, { control_type, communications_channel_type, source_intercom_reference_id, source_intercom_number, source_line_id, transmit_priority, transmit_line_state, command, master_intercom_reference_id, master_intercom_number, master_channel_id, intercom_parameters_length, intercom_parameters });
bind_default!(od::simulation_management::CreateEntityPdu, { originating_entity_id, receiving_entity_id, request_id });
bind_default!(od::simulation_management::RemoveEntityPdu, { originating_entity_id, receiving_entity_id, request_id });
bind_default!(od::simulation_management::StartResumePdu, { originating_entity_id, receiving_entity_id, real_world_time, simulation_time, request_id });
bind_default!(od::simulation_management::StopFreezePdu, { originating_entity_id, receiving_entity_id, real_world_time, reason, frozen_behavior, request_id });
bind_default!(od::simulation_management::AcknowledgePdu, { originating_entity_id, receiving_entity_id, acknowledge_flag, response_flag, request_id });
bind_default!(od::simulation_management::ActionRequestPdu, { originating_entity_id, receiving_entity_id, request_id, action_id, number_of_fixed_datum_records, number_of_variable_datum_records, fixed_datum_records, variable_datum_records });
bind_default!(od::simulation_management::ActionResponsePdu, { originating_entity_id, receiving_entity_id, request_id, request_status, number_of_fixed_datum_records, number_of_variable_datum_records, fixed_datum_records, variable_datum_records });
bind_default!(od::simulation_management::DataQueryPdu, { originating_entity_id, receiving_entity_id, request_id, time_interval, number_of_fixed_datum_records, number_of_variable_datum_records, fixed_datum_records, variable_datum_records });
bind_default!(od::simulation_management::SetDataPdu, { originating_entity_id, receiving_entity_id, request_id, number_of_fixed_datum_records, number_of_variable_datum_records, fixed_datum_records, variable_datum_records });
bind_default!(od::simulation_management::DataPdu, { originating_entity_id, receiving_entity_id, request_id, number_of_fixed_datum_records, number_of_variable_datum_records, fixed_datum_records, variable_datum_records });
bind_default!(od::simulation_management::EventReportPdu, { originating_entity_id, receiving_entity_id, event_type, number_of_fixed_datum_records, number_of_variable_datum_records, fixed_datum_records, variable_datum_records });
bind_default!(od::simulation_management::CommentPdu, { originating_entity_id, receiving_entity_id, number_of_fixed_datum_records, number_of_variable_datum_records, fixed_datum_records, variable_datum_records });
bind_default!(od::simulation_management_with_reliability::CreateEntityReliablePdu, { originating_entity_id, receiving_entity_id, required_reliability_service, request_id });
bind_default!(od::simulation_management_with_reliability::RemoveEntityReliablePdu, { originating_entity_id, receiving_entity_id, required_reliability_service, request_id });
bind_default!(od::simulation_management_with_reliability::StartResumeReliablePdu, { originating_entity_id, receiving_entity_id, real_world_time, simulation_time, required_reliability_service, request_id });
bind_default!(od::simulation_management_with_reliability::StopFreezeReliablePdu, { originating_entity_id, receiving_entity_id, real_world_time, reason, frozen_behavior, required_reliability_service, request_id });
bind_default!(od::simulation_management_with_reliability::AcknowledgeReliablePdu, { originating_entity_id, receiving_entity_id, acknowledge_flag, response_flag, request_id });
bind_default!(od::simulation_management_with_reliability::ActionRequestReliablePdu, { originating_entity_id, receiving_entity_id, required_reliability_service, request_id, action_id, number_of_fixed_datum_records, number_of_variable_datum_records, fixed_datum_records, variable_datum_records });
bind_default!(od::simulation_management_with_reliability::ActionResponseReliablePdu, { originating_entity_id, receiving_entity_id, request_id, request_status, number_of_fixed_datum_records, number_of_variable_datum_records, fixed_datum_records, variable_datum_records });
bind_default!(od::simulation_management_with_reliability::DataQueryReliablePdu, { originating_entity_id, receiving_entity_id, required_reliability_service, request_id, time_interval, number_of_fixed_datum_records, number_of_variable_datum_records, fixed_datum_ids, variable_datum_ids });
bind_default!(od::simulation_management_with_reliability::SetDataReliablePdu, { originating_entity_id, receiving_entity_id, required_reliability_service, request_id, number_of_fixed_datum_records, number_of_variable_datum_records, fixed_datum_records, variable_datum_records });
bind_default!(od::simulation_management_with_reliability::DataReliablePdu, { originating_entity_id, receiving_entity_id, request_id, required_reliability_service, number_of_fixed_datum_records, number_of_variable_datum_records, fixed_datum_records, variable_datum_records });
bind_default!(od::simulation_management_with_reliability::EventReportReliablePdu, { originating_entity_id, receiving_entity_id, event_type, number_of_fixed_datum_records, number_of_variable_datum_records, fixed_datum_records, variable_datum_records });
bind_default!(od::simulation_management_with_reliability::CommentReliablePdu, { originating_entity_id, receiving_entity_id, number_of_fixed_datum_records, number_of_variable_datum_records, fixed_datum_records, variable_datum_records });
bind_default!(od::simulation_management_with_reliability::RecordQueryReliablePdu, { originating_entity_id, receiving_entity_id, request_id, required_reliability_service, event_type, time, number_of_records, record_ids });
bind_default!(od::simulation_management_with_reliability::SetRecordReliablePdu, { originating_entity_id, receiving_entity_id, request_id, required_reliability_service, record_sets });
bind_default!(od::synthetic_environment::EnvironmentalProcessPdu, { environmental_process_id, environment_type, model_type, environment_status, number_of_environment_records, sequence_number, environment_records });
bind_default!(od::synthetic_environment::GriddedDataPdu, { environmental_simulation_id, field_number, pdu_number, pdu_total, coordinate_system, number_of_grid_axes, constant_grid, environment_type, orientation, sample_time, total_values, vector_dimension, grid_axis_descriptors, grid_data_list });
bind_default!(od::synthetic_environment::PointObjectStatePdu, { object_id, referenced_object_id, update_number, force_id, modifications, object_type, object_location, object_orientation, specific_object_appearance, general_object_appearance, requester_id, receiving_id });
bind_default!(od::synthetic_environment::LinearObjectStatePdu, { object_id, referenced_object_id, update_number, force_id, number_of_segments, requester_id, receiving_id, object_type, linear_segment_parameters });
bind_default!(od::synthetic_environment::ArealObjectStatePdu, { object_id, referenced_object_id, update_number, force_id, modifications, object_type, specific_object_appearance, general_object_appearance, number_of_points, requester_id, receiving_id, object_location });
bind_default!(od::warfare::FirePdu, { firing_entity_id, target_entity_id, munition_expendable_id, event_id, fire_mission_index, location_in_world_coordinates, descriptor, velocity, range });
bind_default!(od::warfare::DetonationPdu, { firing_entity_id, target_entity_id, exploding_entity_id, event_id, velocity, location_in_world_coordinates, descriptor, location_in_entitys_coordinates, detonation_result, number_of_variable_parameters, variable_parameters });
bind_default!(od::warfare::DirectedEnergyFirePdu, { firing_entity_id, event_id, munition_type, shot_start_time, cumulative_shot_time, aperture_emitter_location, aperture_diameter, wavelength, pulse_repetition_frequency, pulse_width, flags, pulse_shape, number_of_de_records, damage_descriptions });
bind_default!(od::warfare::EntityDamageStatusPdu, { damaged_entity_id, number_of_damage_descriptions, damage_descriptions });

macro_rules! has_new { ($($t:path),* $(,)?) => { $( impl HasNew for $t { fn make_new() -> Self { <$t>::new() } } )* } }
has_new!(
    od::distributed_emissions::ElectromagneticEmissionsPdu,
    od::distributed_emissions::DesignatorPdu,
    od::distributed_emissions::UnderwaterAcousticPdu,
    od::distributed_emissions::IFFPdu,
    od::distributed_emissions::SupplementalEmissionPdu,
    od::entity_information::EntityStatePdu,
    od::entity_information::CollisionPdu,
    od::entity_information::CollisionElasticPdu,
    od::entity_information::EntityStateUpdatePdu,
    od::entity_information::AttributePdu,
    od::entity_management::AggregateStatePdu,
    od::entity_management::IsGroupOfPdu,
    od::entity_management::TransferOwnershipPdu,
    od::entity_management::IsPartOfPdu,
    od::information_operations::InformationOperationsReportPdu,
    od::information_operations::InformationOperationsActionPdu,
    od::logistics::ServiceRequestPdu,
    od::logistics::ResupplyOfferPdu,
    od::logistics::ResupplyReceivedPdu,
    od::logistics::ResupplyCancelPdu,
    od::logistics::RepairCompletePdu,
    od::logistics::RepairResponsePdu,
    od::minefield::MinefieldStatePdu,
    od::minefield::MinefieldQueryPdu,
    od::minefield::MinefieldDataPdu,
    od::minefield::MinefieldResponseNackPdu,
    od::radio_communications::TransmitterPdu,
    od::radio_communications::SignalPdu,
    od::radio_communications::ReceiverPdu,
    od::radio_communications::IntercomSignalPdu,
    od::radio_communications::IntercomControlPdu,
    od::simulation_management::CreateEntityPdu,
    od::simulation_management::RemoveEntityPdu,
    od::simulation_management::StartResumePdu,
    od::simulation_management::StopFreezePdu,
    od::simulation_management::AcknowledgePdu,
    od::simulation_management::ActionRequestPdu,
    od::simulation_management::ActionResponsePdu,
    od::simulation_management::DataQueryPdu,
    od::simulation_management::SetDataPdu,
    od::simulation_management::DataPdu,
    od::simulation_management::EventReportPdu,
    od::simulation_management::CommentPdu,
    od::simulation_management_with_reliability::CreateEntityReliablePdu,
    od::simulation_management_with_reliability::RemoveEntityReliablePdu,
    od::simulation_management_with_reliability::StartResumeReliablePdu,
    od::simulation_management_with_reliability::StopFreezeReliablePdu,
    od::simulation_management_with_reliability::AcknowledgeReliablePdu,
    od::simulation_management_with_reliability::ActionRequestReliablePdu,
    od::simulation_management_with_reliability::ActionResponseReliablePdu,
    od::simulation_management_with_reliability::DataQueryReliablePdu,
    od::simulation_management_with_reliability::SetDataReliablePdu,
    od::simulation_management_with_reliability::DataReliablePdu,
    od::simulation_management_with_reliability::EventReportReliablePdu,
    od::simulation_management_with_reliability::CommentReliablePdu,
    od::simulation_management_with_reliability::RecordQueryReliablePdu,
    od::simulation_management_with_reliability::SetRecordReliablePdu,
    od::synthetic_environment::EnvironmentalProcessPdu,
    od::synthetic_environment::GriddedDataPdu,
    od::synthetic_environment::PointObjectStatePdu,
    od::synthetic_environment::LinearObjectStatePdu,
    od::synthetic_environment::ArealObjectStatePdu,
    od::warfare::FirePdu,
    od::warfare::DetonationPdu,
    od::warfare::DirectedEnergyFirePdu,
    od::warfare::EntityDamageStatusPdu,
);

pub fn all_pdus() -> Vec<PduInfo> {
  vec![
    pdu::<od::distributed_emissions::ElectromagneticEmissionsPdu>("ElectromagneticEmissionsPdu", 23, 6),
    pdu::<od::distributed_emissions::DesignatorPdu>("DesignatorPdu", 24, 6),
    pdu::<od::distributed_emissions::UnderwaterAcousticPdu>("UnderwaterAcousticPdu", 29, 6),
    pdu::<od::distributed_emissions::IFFPdu>("IFFPdu", 28, 6),
    pdu::<od::distributed_emissions::SupplementalEmissionPdu>("SupplementalEmissionPdu", 30, 6),
    pdu::<od::entity_information::EntityStatePdu>("EntityStatePdu", 1, 1),
    pdu::<od::entity_information::CollisionPdu>("CollisionPdu", 4, 1),
    pdu::<od::entity_information::CollisionElasticPdu>("CollisionElasticPdu", 66, 1),
    pdu::<od::entity_information::EntityStateUpdatePdu>("EntityStateUpdatePdu", 67, 1),
    pdu::<od::entity_information::AttributePdu>("AttributePdu", 72, 1),
    pdu::<od::entity_management::AggregateStatePdu>("AggregateStatePdu", 33, 7),
    pdu::<od::entity_management::IsGroupOfPdu>("IsGroupOfPdu", 34, 7),
    pdu::<od::entity_management::TransferOwnershipPdu>("TransferOwnershipPdu", 35, 7),
    pdu::<od::entity_management::IsPartOfPdu>("IsPartOfPdu", 36, 7),
    pdu::<od::information_operations::InformationOperationsReportPdu>("InformationOperationsReportPdu", 71, 13),
    pdu::<od::information_operations::InformationOperationsActionPdu>("InformationOperationsActionPdu", 70, 13),
    pdu::<od::logistics::ServiceRequestPdu>("ServiceRequestPdu", 5, 3),
    pdu::<od::logistics::ResupplyOfferPdu>("ResupplyOfferPdu", 6, 3),
    pdu::<od::logistics::ResupplyReceivedPdu>("ResupplyReceivedPdu", 7, 3),
    pdu::<od::logistics::ResupplyCancelPdu>("ResupplyCancelPdu", 8, 3),
    pdu::<od::logistics::RepairCompletePdu>("RepairCompletePdu", 9, 3),
    pdu::<od::logistics::RepairResponsePdu>("RepairResponsePdu", 10, 3),
    pdu::<od::minefield::MinefieldStatePdu>("MinefieldStatePdu", 37, 8),
    pdu::<od::minefield::MinefieldQueryPdu>("MinefieldQueryPdu", 38, 8),
    pdu::<od::minefield::MinefieldDataPdu>("MinefieldDataPdu", 39, 8),
    pdu::<od::minefield::MinefieldResponseNackPdu>("MinefieldResponseNackPdu", 40, 8),
    pdu::<od::radio_communications::TransmitterPdu>("TransmitterPdu", 25, 4),
    pdu::<od::radio_communications::SignalPdu>("SignalPdu", 26, 4),
    pdu::<od::radio_communications::ReceiverPdu>("ReceiverPdu", 27, 4),
    pdu::<od::radio_communications::IntercomSignalPdu>("IntercomSignalPdu", 31, 4),
    pdu::<od::radio_communications::IntercomControlPdu>("IntercomControlPdu", 32, 4),
    pdu::<od::simulation_management::CreateEntityPdu>("CreateEntityPdu", 11, 5),
    pdu::<od::simulation_management::RemoveEntityPdu>("RemoveEntityPdu", 12, 5),
    pdu::<od::simulation_management::StartResumePdu>("StartResumePdu", 13, 5),
    pdu::<od::simulation_management::StopFreezePdu>("StopFreezePdu", 14, 5),
    pdu::<od::simulation_management::AcknowledgePdu>("AcknowledgePdu", 15, 5),
    pdu::<od::simulation_management::ActionRequestPdu>("ActionRequestPdu", 16, 5),
    pdu::<od::simulation_management::ActionResponsePdu>("ActionResponsePdu", 17, 5),
    pdu::<od::simulation_management::DataQueryPdu>("DataQueryPdu", 18, 5),
    pdu::<od::simulation_management::SetDataPdu>("SetDataPdu", 19, 5),
    pdu::<od::simulation_management::DataPdu>("DataPdu", 20, 5),
    pdu::<od::simulation_management::EventReportPdu>("EventReportPdu", 21, 5),
    pdu::<od::simulation_management::CommentPdu>("CommentPdu", 22, 5),
    pdu::<od::simulation_management_with_reliability::CreateEntityReliablePdu>("CreateEntityReliablePdu", 51, 10),
    pdu::<od::simulation_management_with_reliability::RemoveEntityReliablePdu>("RemoveEntityReliablePdu", 52, 10),
    pdu::<od::simulation_management_with_reliability::StartResumeReliablePdu>("StartResumeReliablePdu", 53, 10),
    pdu::<od::simulation_management_with_reliability::StopFreezeReliablePdu>("StopFreezeReliablePdu", 54, 10),
    pdu::<od::simulation_management_with_reliability::AcknowledgeReliablePdu>("AcknowledgeReliablePdu", 55, 10),
    pdu::<od::simulation_management_with_reliability::ActionRequestReliablePdu>("ActionRequestReliablePdu", 56, 10),
    pdu::<od::simulation_management_with_reliability::ActionResponseReliablePdu>("ActionResponseReliablePdu", 57, 10),
    pdu::<od::simulation_management_with_reliability::DataQueryReliablePdu>("DataQueryReliablePdu", 58, 10),
    pdu::<od::simulation_management_with_reliability::SetDataReliablePdu>("SetDataReliablePdu", 59, 10),
    pdu::<od::simulation_management_with_reliability::DataReliablePdu>("DataReliablePdu", 60, 10),
    pdu::<od::simulation_management_with_reliability::EventReportReliablePdu>("EventReportReliablePdu", 61, 10),
    pdu::<od::simulation_management_with_reliability::CommentReliablePdu>("CommentReliablePdu", 62, 10),
    pdu::<od::simulation_management_with_reliability::RecordQueryReliablePdu>("RecordQueryReliablePdu", 65, 10),
    pdu::<od::simulation_management_with_reliability::SetRecordReliablePdu>("SetRecordReliablePdu", 64, 10),
    pdu::<od::synthetic_environment::EnvironmentalProcessPdu>("EnvironmentalProcessPdu", 41, 9),
    pdu::<od::synthetic_environment::GriddedDataPdu>("GriddedDataPdu", 42, 9),
    pdu::<od::synthetic_environment::PointObjectStatePdu>("PointObjectStatePdu", 43, 9),
    pdu::<od::synthetic_environment::LinearObjectStatePdu>("LinearObjectStatePdu", 44, 9),
    pdu::<od::synthetic_environment::ArealObjectStatePdu>("ArealObjectStatePdu", 45, 9),
    pdu::<od::warfare::FirePdu>("FirePdu", 2, 2),
    pdu::<od::warfare::DetonationPdu>("DetonationPdu", 3, 2),
    pdu::<od::warfare::DirectedEnergyFirePdu>("DirectedEnergyFirePdu", 68, 2),
    pdu::<od::warfare::EntityDamageStatusPdu>("EntityDamageStatusPdu", 69, 2),
  ]
}
pub fn all_records() -> Vec<RecInfo> {
  vec![
    rec::<dt::acoustic_beam_data::AcousticBeamData>("AcousticBeamData"),
    rec::<dt::acoustic_beam_fundamental_parameter::AcousticBeamFundamentalParameter>("AcousticBeamFundamentalParameter"),
    rec::<dt::acoustic_emitter_system::AcousticEmitterSystem>("AcousticEmitterSystem"),
    rec::<dt::acoustic_emitter_system_data::AcousticEmitterSystemData>("AcousticEmitterSystemData"),
    rec::<dt::aggregate_id::AggregateId>("AggregateId"),
    rec::<dt::aggregate_marking::AggregateMarking>("AggregateMarking"),
    rec::<dt::angular_velocity_vector::AngularVelocity>("AngularVelocity"),
    rec::<dt::apa_data::ApaData>("ApaData"),
    rec::<dt::attribute_record::AttributeRecord>("AttributeRecord"),
    rec::<dt::attribute_record_set::AttributeRecordSet>("AttributeRecordSet"),
    rec::<dt::beam_data::BeamData>("BeamData"),
    rec::<dt::clock_time::ClockTime>("ClockTime"),
    rec::<dt::dead_reckoning_parameters::DeadReckoningParameters>("DeadReckoningParameters"),
    rec::<dt::directed_energy_damage::DirectedEnergyDamage>("DirectedEnergyDamage"),
    rec::<dt::electromagnetic_emission_beam_data::ElectromagneticEmissionBeamData>("ElectromagneticEmissionBeamData"),
    rec::<dt::electromagnetic_emission_system_data::ElectromagneticEmissionSystemData>("ElectromagneticEmissionSystemData"),
    rec::<dt::emitter_system::EmitterSystem>("EmitterSystem"),
    rec::<dt::entity_coordinate_vector::EntityCoordinateVector>("EntityCoordinateVector"),
    rec::<dt::entity_id::EntityId>("EntityId"),
    rec::<dt::entity_marking::EntityMarking>("EntityMarking"),
    rec::<dt::entity_type::EntityType>("EntityType"),
    rec::<dt::environment::Environment>("Environment"),
    rec::<dt::euler_angles::EulerAngles>("EulerAngles"),
    rec::<dt::event_id::EventId>("EventId"),
    rec::<dt::datum_records::FixedDatumRecord>("FixedDatumRecord"),
    rec::<dt::fundamental_operational_data::FundamentalOperationalData>("FundamentalOperationalData"),
    rec::<dt::fundamental_parameter_data::FundamentalParameterData>("FundamentalParameterData"),
    rec::<dt::grid_axis_descriptor::GridAxisDescriptor>("GridAxisDescriptor"),
    rec::<dt::grid_data_record::GridDataRecord>("GridDataRecord"),
    rec::<dt::iff_fundamental_parameter_data::IFFFundamentalParameterData>("IFFFundamentalParameterData"),
    rec::<dt::intercom_communications_parameters::IntercomCommunicationsParameters>("IntercomCommunicationsParameters"),
    rec::<dt::layer_header::LayerHeader>("LayerHeader"),
    rec::<dt::linear_acceleration::LinearAcceleration>("LinearAcceleration"),
    rec::<dt::linear_segment_parameter::LinearSegmentParameter>("LinearSegmentParameter"),
    rec::<dt::linear_velocity::LinearVelocity>("LinearVelocity"),
    rec::<dt::minefield_identifier::MinefieldIdentifier>("MinefieldIdentifier"),
    rec::<dt::modulation_type::ModulationType>("ModulationType"),
    rec::<dt::munition_descriptor::MunitionDescriptor>("MunitionDescriptor"),
    rec::<dt::named_location::NamedLocation>("NamedLocation"),
    rec::<dt::object_identifier::ObjectIdentifier>("ObjectIdentifier"),
    rec::<dt::object_type::ObjectType>("ObjectType"),
    rec::<dt::point::Point>("Point"),
    rec::<dt::propulsion_system_data::PropulsionSystemData>("PropulsionSystemData"),
    rec::<dt::radio_entity_type::RadioEntityType>("RadioEntityType"),
    rec::<dt::record_specification::RecordSpecification>("RecordSpecification"),
    rec::<dt::record_specification_element::RecordSpecificationElement>("RecordSpecificationElement"),
    rec::<dt::relationship::Relationship>("Relationship"),
    rec::<dt::secondary_operational_data::SecondaryOperationalData>("SecondaryOperationalData"),
    rec::<dt::shaft_rpms::ShaftRPMs>("ShaftRPMs"),
    rec::<dt::simulation_address::SimulationAddress>("SimulationAddress"),
    rec::<dt::simulation_id::SimulationIdentifier>("SimulationIdentifier"),
    rec::<dt::standard_variable_records::StandardVariableRecords>("StandardVariableRecords"),
    rec::<dt::standard_variable_specification::StandardVariableSpecification>("StandardVariableSpecification"),
    rec::<dt::supply_quantity::SupplyQuantity>("SupplyQuantity"),
    rec::<dt::system_id::SystemId>("SystemId"),
    rec::<dt::track_jam_target::TrackJamTarget>("TrackJamTarget"),
    rec::<dt::datum_records::VariableDatumRecord>("VariableDatumRecord"),
    rec::<dt::variable_parameter::VariableParameter>("VariableParameter"),
    rec::<dt::variable_transmitter_parameters::VariableTransmitterParameters>("VariableTransmitterParameters"),
    rec::<dt::vector3_double::Vector3Double>("Vector3Double"),
    rec::<dt::vector3_float::Vector3Float>("Vector3Float"),
    rec::<dt::vectoring_nozzle_system_data::VectoringNozzleSystemData>("VectoringNozzleSystemData"),
    rec::<dt::velocity_vector::VelocityVector>("VelocityVector"),
    rec::<dt::world_coordinate::WorldCoordinate>("WorldCoordinate"),
  ]
}
