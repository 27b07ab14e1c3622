"""On-disk layout oracle: the ASAM MDF 4.2 and MDF 3.3 block tables, written as the
ordered fields after the link section.  Entry: (type, member, guard, loop bounds).
guard: '' or 'member & mask', '!(member & mask)', 'member == a|b|c' (conjunctions with ' && ').
member '-' = reserved bytes (type is the byte count); '*' = any value (link patched elsewhere).
"""
U8, U16, U32, U64 = 'u8', 'u16', 'u32', 'u64'
I16, I32, I64, F64, B16 = 'i16', 'i32', 'i64', 'f64', 'bool16'


def F(t, m, g='', loop=None, only=None):
    return {'t': t, 'm': m, 'g': g, 'loop': loop, 'only': only}


def PAD(n):
    return F(n, '-')


SPEC4 = {
    'IdBlock': [F('str8', 'file_identifier_'), F('str8', 'format_identifier_'), F('str8', 'program_identifier_'),
                F(U16, 'byte_order_'), F(U16, 'floating_point_format_'), F(U16, 'version_'), F(U16, 'code_page_number_'),
                PAD(28), F(U16, 'standard_flags_'), F(U16, 'custom_flags_')],
    'Hd4Block': [F('sub', 'timestamp_'), F(U8, 'time_class_'), F(U8, 'flags_'), PAD(1), F(F64, 'start_angle_'), F(F64, 'start_distance_')],
    'Mdf4Timestamp': [F(U64, 'time_'), F(I16, 'tz_offset_'), F(I16, 'dst_offset_'), F(U8, 'flags_')],
    'Fh4Block': [F('sub', 'timestamp_'), F(3, '-', only='w')],
    'Ch4Block': [F(U32, 'nof_elements_'), F(U8, 'type_'), PAD(3)],
    'At4Block': [F(U16, 'flags_'), F(U16, 'creator_index_'), PAD(4), F('bytes16', 'md5_'), F(U64, 'original_size_'), F(U64, 'nof_bytes_'),
                 F('bytes*', 'data_buffer_', '', only='w')],
    'Ev4Block': [F(U8, 'type_'), F(U8, 'sync_type_'), F(U8, 'range_type_'), F(U8, 'cause_'), F(U8, 'flags_'), PAD(3),
                 F(U32, 'length_m_'), F(U16, 'length_n_'), F(U16, 'creator_index_'), F(I64, 'sync_base_value_'), F(F64, 'sync_factor_')],
    'Dg4Block': [F(U8, 'rec_id_size_'), PAD(7)],
    'Cg4Block': [F(U64, 'record_id_'), F(U64, 'nof_samples_'), F(U16, 'flags_'), F(U16, 'path_separator_'), PAD(4),
                 F(U32, 'nof_data_bytes_'), F(U32, 'nof_invalid_bytes_')],
    'Si4Block': [F(U8, 'type_'), F(U8, 'bus_type_'), F(U8, 'flags_'), PAD(5)],
    'Cn4Block': [F(U8, 'type_'), F(U8, 'sync_type_'), F(U8, 'data_type_'), F(U8, 'bit_offset_'), F(U32, 'byte_offset_'),
                 F(U32, 'bit_count_'), F(U32, 'flags_'), F(U32, 'invalid_bit_pos_'), F(U8, 'precision_'), PAD(1), F(U16, 'nof_attachments_'),
                 F(F64, 'range_min_'), F(F64, 'range_max_'), F(F64, 'limit_min_'), F(F64, 'limit_max_'), F(F64, 'limit_ext_min_'), F(F64, 'limit_ext_max_')],
    'Cc4Block': [F(U8, 'type_'), F(U8, 'precision_'), F(U16, 'flags_'), F(U16, 'nof_references_'), F(U16, 'nof_values_'),
                 F(F64, 'range_min_'), F(F64, 'range_max_'),
                 F('num8', 'value_list_[*]', '', ['nof_values_', 'size(value_list_)'])],
    'Ca4Block': [F(U8, 'type_'), F(U8, 'storage_'), F(U16, 'dimensions_'), F(U32, 'flags_'), F(I32, 'byte_offset_base_'), F(U32, 'invalid_bit_pos_base_'),
                 F(U64, 'dim_size_list_[*]', '', ['dimensions_', 'size(dim_size_list_)']),
                 F(F64, 'axis_value_list_[*]', 'flags_ & 32', ['SumOfArray(this)', 'size(axis_value_list_)']),
                 F(U64, 'cycle_count_list_[*]', 'storage_ == 1|2', ['ProductOfArray(this)', 'size(cycle_count_list_)'])],
    'Sr4Block': [F(U64, 'nof_samples_'), F(F64, 'interval_'), F(U8, 'type_'), F(U8, 'flags_'), PAD(6)],
    'Dl4Block': [F(U8, 'flags_'), PAD(3), F(U32, 'nof_blocks_|size(block_list_)'),
                 F(U64, 'equal_length_', 'flags_ & 1'),
                 F(U64, 'offset_list_[*]', '!(flags_ & 1)', ['nof_blocks_', 'size(block_list_)', 'size(offset_list_)']),
                 F(U64, 'time_list_[*]', 'flags_ & 2', ['nof_blocks_', 'size(block_list_)', 'size(time_list_)']),
                 F(U64, 'angle_list_[*]', 'flags_ & 4', ['nof_blocks_', 'size(block_list_)', 'size(angle_list_)']),
                 F(U64, 'distance_list_[*]', 'flags_ & 8', ['nof_blocks_', 'size(block_list_)', 'size(distance_list_)'])],
    'Ld4Block': [F(U32, 'flags_'), F(U32, 'nof_blocks_'), F(U64, 'equal_sample_count_', 'flags_ & 1'),
                 F(U64, 'offset_list_[*]', '!(flags_ & 1)', ['nof_blocks_']),
                 F(I64, 'time_values_[*]', 'flags_ & 2', ['nof_blocks_']),
                 F(I64, 'angle_values_[*]', 'flags_ & 4', ['nof_blocks_']),
                 F(I64, 'distance_values_[*]', 'flags_ & 8', ['nof_blocks_'])],
    'Dz4Block': [F('str2', 'orig_block_type_'), F(U8, 'type_'), PAD(1), F(U32, 'parameter_'), F(U64, 'orig_data_length_'), F(U64, 'data_length_'),
                 F('bytes*', 'data_', only='w')],
    'Hl4Block': [F(U16, 'flags_'), F(U8, 'type_'), PAD(5)],
    'Dt4Block': [F('bytes*', 'data_', only='w')],
    'Sd4Block': [F('bytes*', 'data_', only='w')],
    'Tx4Block': [F('str*', 'text_'), F(1, '-', only='w')],
    'Di4Block': [], 'Dv4Block': [], 'Rd4Block': [], 'Ri4Block': [], 'Rv4Block': [],
}

_T = 'text_range_conversion_list_[*]'
SPEC3 = {
    'Hd3Block': [F(U16, 'nof_dg_blocks_'), F('str10', 'timestamp_.date_'), F('str8', 'timestamp_.time_'), F('str32', 'author_'),
                 F('str32', 'organisation_'), F('str32', 'project_'), F('str32', 'subject_'), F(U64, 'timestamp_.local_timestamp_'),
                 F(I16, 'timestamp_.utc_offset_'), F(U16, 'timestamp_.time_quality_'), F('str32', 'timestamp_.timer_id_')],
    'Dg3Block': [F(U16, 'nof_cg_blocks_'), F(U16, 'nof_record_id_'), F(4, '-', only='w')],
    'Cg3Block': [F(U16, 'record_id_'), F(U16, 'nof_channels_'), F(U16, 'size_of_data_record_'), F(U32, 'nof_records_'), F(U32, '*')],
    'Cn3Block': [F(U16, 'channel_type_'), F('str32', 'short_name_'), F('str128', 'description_'), F(U16, 'start_offset_'), F(U16, 'nof_bits_'),
                 F(U16, 'signal_type_'), F(B16, 'range_valid_'), F(F64, 'min_'), F(F64, 'max_'), F(F64, 'sample_rate_'), F(U32, '*'), F(U32, '*'),
                 F(U16, 'byte_offset_')],
    'Cc3Block': [F(B16, 'range_valid_'), F(F64, 'min_'), F(F64, 'max_'), F('str20', 'unit_'), F(U16, 'conversion_type_'), F(U16, 'nof_values_'),
                 F(F64, 'value_list_[*]', 'conversion_type_ == 0|6|7|8|9', 'any'),
                 F(F64, 'value_list_[*]', 'conversion_type_ == 1|2', 'any'),
                 F('str*', 'formula_', 'conversion_type_ == 10'),
                 F(F64, 'text_conversion_list_[*].value', 'conversion_type_ == 11', 'any'),
                 F('str32', 'text_conversion_list_[*].text', 'conversion_type_ == 11', 'any'),
                 F(F64, _T + '.lower', 'conversion_type_ == 12', 'any'), F(F64, _T + '.upper', 'conversion_type_ == 12', 'any'),
                 F(U32, _T + '.link_text', 'conversion_type_ == 12', 'any')],
    'Cd3Block': [F(U16, 'dependency_type_'), F(U16, 'nof_dependencies_'),
                 F(U32, 'dependency_list_[*].link_dg', 'dependency_type_ == 1|2', 'any'),
                 F(U32, 'dependency_list_[*].link_cg', 'dependency_type_ == 1|2', 'any'),
                 F(U32, 'dependency_list_[*].link_cn', 'dependency_type_ == 1|2', 'any'), F(U16, 'dimension_list_[*]', 'any', 'any')],
    'Ce3Block': [F(U16, 'type_'), F(U16, 'nof_module_', 'type_ == 2'), F(U32, 'address_', 'type_ == 2'), F('str80', 'description_', 'type_ == 2'),
                 F('str32', 'ecu_', 'type_ == 2'), F(U32, 'message_id_', 'type_ == 19'), F(U32, 'index_', 'type_ == 19'),
                 F('str36', 'message_', 'type_ == 19'), F('str36', 'sender_', 'type_ == 19')],
    'Tr3Block': [F(U16, 'nof_events_'), F(F64, 'event_list_[*].event_time', '', 'any'), F(F64, 'event_list_[*].pre_time', '', 'any'),
                 F(F64, 'event_list_[*].post_time', '', 'any')],
    'Sr3Block': [F(U32, 'nof_reduced_samples_'), F(F64, 'time_interval_')],
    'Pr3Block': [F('str*', 'text_')],
    'Tx3Block': [F('str*', 'text_')],
}

# number of link slots following the header (MDF3 reader/ writer)
LINKS3 = {'Hd3Block': 3, 'Dg3Block': 4, 'Cg3Block': 3, 'Cn3Block': 5, 'Tr3Block': 1, 'Sr3Block': 2}
