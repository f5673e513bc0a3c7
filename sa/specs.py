"""Syntax tables (ITU-T H.264 clauses 7.3, E.1, F/G/H.7.3) as specifications."""
from spec import *

N = 'h264nal::'


def S(lib, cls, fn, struct, args, body, **kw):
    defaults = kw.pop('defaults', None)
    lib.add(Spec(N + cls + '::' + fn, struct and N + cls + '::' + struct, args.split(), body, defaults, kw))


def scaling(flag, ind):
    """scaling_list_present_flag[i] and the call of scaling_list()"""
    t = """
%s[i] = u(1)
if %s:
    if _i < 6:
        sub('scaling_list', 'this', _i, 'ScalingList4x4', 16, 'UseDefaultScalingMatrix4x4Flag')
    else:
        sub('scaling_list', 'this', _i - 6, 'ScalingList8x8', 64, 'UseDefaultScalingMatrix8x8Flag')
""" % (flag, flag)
    return '\n'.join(' ' * ind + l for l in t.strip('\n').split('\n'))


SCALING_LIST = '''
_last = 8
_next = 8
for j in range(size):
    if _next != 0:
        delta_scale = se(-128, 127)
        _next = (_last + delta_scale + 256) % 256
    if _next != 0:
        _last = _next
'''


def build(lib):
    from handlers import install
    install(lib)
    S(lib, 'H264HrdParametersParser', 'ParseHrdParameters', 'HrdParametersState', 'bit_buffer', '''
cpb_cnt_minus1 = ue(0, 31)
bit_rate_scale = u(4)
cpb_size_scale = u(4)
for i in range(cpb_cnt_minus1 + 1):
    bit_rate_value_minus1[i] = ue()
    cpb_size_value_minus1[i] = ue()
    cbr_flag[i] = u(1)
initial_cpb_removal_delay_length_minus1 = u(5)
cpb_removal_delay_length_minus1 = u(5)
dpb_output_delay_length_minus1 = u(5)
time_offset_length = u(5)
''')
    S(lib, 'H264VuiParametersParser', 'ParseVuiParameters', 'VuiParametersState', 'bit_buffer', '''
aspect_ratio_info_present_flag = u(1)
if aspect_ratio_info_present_flag:
    aspect_ratio_idc = u(8)
    if aspect_ratio_idc == 255:
        sar_width = u(16)
        sar_height = u(16)
overscan_info_present_flag = u(1)
if overscan_info_present_flag:
    overscan_appropriate_flag = u(1)
video_signal_type_present_flag = u(1)
if video_signal_type_present_flag:
    video_format = u(3)
    video_full_range_flag = u(1)
    colour_description_present_flag = u(1)
    if colour_description_present_flag:
        colour_primaries = u(8)
        transfer_characteristics = u(8)
        matrix_coefficients = u(8)
chroma_loc_info_present_flag = u(1)
if chroma_loc_info_present_flag:
    chroma_sample_loc_type_top_field = ue(0, 5)
    chroma_sample_loc_type_bottom_field = ue(0, 5)
timing_info_present_flag = u(1)
if timing_info_present_flag:
    num_units_in_tick = u(32, 1, U32)
    time_scale = u(32, 1, U32)
    fixed_frame_rate_flag = u(1)
nal_hrd_parameters_present_flag = u(1)
if nal_hrd_parameters_present_flag:
    nal_hrd_parameters = nested('ParseHrdParameters')
vcl_hrd_parameters_present_flag = u(1)
if vcl_hrd_parameters_present_flag:
    vcl_hrd_parameters = nested('ParseHrdParameters')
if nal_hrd_parameters_present_flag or vcl_hrd_parameters_present_flag:
    low_delay_hrd_flag = u(1)
pic_struct_present_flag = u(1)
bitstream_restriction_flag = u(1)
if bitstream_restriction_flag:
    motion_vectors_over_pic_boundaries_flag = u(1)
    max_bytes_per_pic_denom = ue(0, 16)
    max_bits_per_mb_denom = ue(0, 16)
    log2_max_mv_length_horizontal = ue(0, 16)
    log2_max_mv_length_vertical = ue(0, 16)
    max_num_reorder_frames = ue(0, 16)
    max_dec_frame_buffering = ue(0, 16)
''')
    S(lib, 'H264SpsDataParser', 'ParseSpsData', 'SpsDataState', 'bit_buffer', '''
profile_idc = u(8)
constraint_set0_flag = u(1)
constraint_set1_flag = u(1)
constraint_set2_flag = u(1)
constraint_set3_flag = u(1)
constraint_set4_flag = u(1)
constraint_set5_flag = u(1)
reserved_zero_2bits = u(2)
level_idc = u(8)
seq_parameter_set_id = ue(0, 31)
if profile_idc in (100, 110, 122, 244, 44, 83, 86, 118, 128, 138, 139, 134, 135):
    chroma_format_idc = ue(0, 3)
    if chroma_format_idc == 3:
        separate_colour_plane_flag = u(1)
    bit_depth_luma_minus8 = ue(0, 6)
    bit_depth_chroma_minus8 = ue(0, 6)
    qpprime_y_zero_transform_bypass_flag = u(1)
    seq_scaling_matrix_present_flag = u(1)
    if seq_scaling_matrix_present_flag:
        for i in range(8 if chroma_format_idc != 3 else 12):
''' + scaling('seq_scaling_list_present_flag', 12) + '''
log2_max_frame_num_minus4 = ue(0, 12)
pic_order_cnt_type = ue(0, 2)
if pic_order_cnt_type == 0:
    log2_max_pic_order_cnt_lsb_minus4 = ue(0, 12)
elif pic_order_cnt_type == 1:
    delta_pic_order_always_zero_flag = u(1)
    offset_for_non_ref_pic = se()
    offset_for_top_to_bottom_field = se()
    num_ref_frames_in_pic_order_cnt_cycle = ue(0, 255)
    for i in range(num_ref_frames_in_pic_order_cnt_cycle):
        offset_for_ref_frame[i] = se()
max_num_ref_frames = ue(0, 16)
gaps_in_frame_num_value_allowed_flag = u(1)
pic_width_in_mbs_minus1 = ue(0, 1055)
pic_height_in_map_units_minus1 = ue(0, 1055)
frame_mbs_only_flag = u(1)
if not frame_mbs_only_flag:
    mb_adaptive_frame_field_flag = u(1)
direct_8x8_inference_flag = u(1)
frame_cropping_flag = u(1)
if frame_cropping_flag:
    frame_crop_left_offset = ue(0, 16880)
    frame_crop_right_offset = ue(0, 16880)
    frame_crop_top_offset = ue(0, 16880)
    frame_crop_bottom_offset = ue(0, 16880)
    if separate_colour_plane_flag == 1:
        _kcat = 1
        _kcux = 1
        _kcuy = 1
    elif chroma_format_idc in (0, 3):
        _kcux = 1
        _kcuy = 1
    elif chroma_format_idc == 1:
        _kcux = 2
        _kcuy = 2
    else:
        _kcux = 2
        _kcuy = 1
    _kfmo = 1 if frame_mbs_only_flag else 2
    require(_kcux * (frame_crop_left_offset + frame_crop_right_offset) < 16 * (pic_width_in_mbs_minus1 + 1), 'horizontal crop inside the picture')
    require(_kcuy * _kfmo * (frame_crop_top_offset + frame_crop_bottom_offset) < 16 * _kfmo * (pic_height_in_map_units_minus1 + 1), 'vertical crop inside the picture')
vui_parameters_present_flag = u(1)
_kcux = 0
_kcuy = 0
_kfmo = 0
_kcat = 0
if vui_parameters_present_flag:
    vui_parameters = nested('ParseVuiParameters')
profile_type = profile_type_of(profile_idc, constraint_set1_flag, constraint_set3_flag, constraint_set4_flag, constraint_set5_flag)
''', defaults={'chroma_format_idc': 1})
    S(lib, 'H264SpsDataParser::SpsDataState', 'GetProfileType', None, 'this', '', kind='pure', name='profile_type_of', func='profile_type_f', need='GetProfileType', range=(0, 255),
      fields=['profile_idc', 'constraint_set1_flag', 'constraint_set3_flag', 'constraint_set4_flag', 'constraint_set5_flag'])
    for cls, st in (('H264SpsDataParser', 'SpsDataState'), ('H264PpsParser', 'PpsState')):
        S(lib, cls + '::' + st, 'scaling_list', None, 'this bit_buffer i list size flags', SCALING_LIST, kind='bool', ranges={'i': (0, 5), 'size': (1, 64)})
    S(lib, 'H264SpsParser', 'ParseSps', 'SpsState', 'bit_buffer', '''
sps_data = nested('ParseSpsData')
trailing()
''')
    S(lib, 'H264SpsExtensionParser', 'ParseSpsExtension', 'SpsExtensionState', 'bit_buffer', '''
seq_parameter_set_id = ue(0, 31)
aux_format_idc = ue()
if aux_format_idc != 0:
    bit_depth_aux_minus8 = ue(0, 4)
    alpha_incr_flag = u(1)
    alpha_opaque_value = u(bit_depth_aux_minus8 + 9)
    alpha_transparent_value = u(bit_depth_aux_minus8 + 9)
additional_extension_flag = u(1)
trailing()
''')
    S(lib, 'H264SpsSvcExtensionParser', 'ParseSpsSvcExtension', 'SpsSvcExtensionState', 'bit_buffer ChromaArrayType', '''
ChromaArrayType = ChromaArrayType
inter_layer_deblocking_filter_control_present_flag = u(1)
extended_spatial_scalability_idc = u(2)
if ChromaArrayType in (1, 2):
    chroma_phase_x_plus1_flag = u(1)
if ChromaArrayType == 1:
    chroma_phase_y_plus1 = u(2)
if extended_spatial_scalability_idc == 1:
    if ChromaArrayType > 0:
        seq_ref_layer_chroma_phase_x_plus1_flag = u(1)
        seq_ref_layer_chroma_phase_y_plus1 = u(2)
    seq_scaled_ref_layer_left_offset = se()
    seq_scaled_ref_layer_top_offset = se()
    seq_scaled_ref_layer_right_offset = se()
    seq_scaled_ref_layer_bottom_offset = se()
seq_tcoeff_level_prediction_flag = u(1)
if seq_tcoeff_level_prediction_flag:
    adaptive_tcoeff_level_prediction_flag = u(1)
slice_header_restriction_flag = u(1)
''')
    S(lib, 'H264SubsetSpsParser', 'ParseSubsetSps', 'SubsetSpsState', 'bit_buffer', '''
seq_parameter_set_data = nested('ParseSpsData')
if seq_parameter_set_data.profile_idc in (83, 86):
    seq_parameter_set_svc_extension = nested('ParseSpsSvcExtension', seq_parameter_set_data.chroma_format_idc if seq_parameter_set_data.separate_colour_plane_flag == 0 else 0)
    svc_vui_parameters_present_flag = u(1)
    if svc_vui_parameters_present_flag == 1:
        skipped('svc_vui_parameters_extension()')
elif seq_parameter_set_data.profile_idc in (118, 128, 134):
    bit_equal_to_one = u(1)
    skipped('seq_parameter_set_mvc_extension()')
    mvc_vui_parameters_present_flag = u(1)
    if mvc_vui_parameters_present_flag == 1:
        skipped('mvc_vui_parameters_extension()')
elif seq_parameter_set_data.profile_idc in (138, 135):
    bit_equal_to_one = u(1)
    skipped('seq_parameter_set_mvcd_extension()')
elif seq_parameter_set_data.profile_idc == 139:
    bit_equal_to_one = u(1)
    skipped('seq_parameter_set_mvcd_extension()')
    skipped('seq_parameter_set_3davc_extension()')
additional_extension2_flag = u(1)
if additional_extension2_flag:
    while more_data():
        additional_extension2_data_flag = u(1)
trailing()
''')
    S(lib, 'H264PpsParser', 'ParsePps', 'PpsState', 'bit_buffer chroma_format_idc', '''
chroma_format_idc = chroma_format_idc
pic_parameter_set_id = ue(0, 255)
seq_parameter_set_id = ue(0, 31)
entropy_coding_mode_flag = u(1)
bottom_field_pic_order_in_frame_present_flag = u(1)
num_slice_groups_minus1 = ue(0, 7)
if num_slice_groups_minus1 > 0:
    slice_group_map_type = ue(0, 6)
    if slice_group_map_type == 0:
        for i in range(num_slice_groups_minus1 + 1):
            run_length_minus1[i] = ue()
    elif slice_group_map_type == 2:
        for i in range(num_slice_groups_minus1):
            top_left[i] = ue()
            bottom_right[i] = ue()
    elif slice_group_map_type in (3, 4, 5):
        slice_group_change_direction_flag = u(1)
        slice_group_change_rate_minus1 = ue()
    elif slice_group_map_type == 6:
        pic_size_in_map_units_minus1 = ue(0, 139263)
        for i in range(pic_size_in_map_units_minus1 + 1):
            slice_group_id[i] = u(ceil_log2(num_slice_groups_minus1 + 1))
num_ref_idx_l0_default_active_minus1 = ue(0, 31)
num_ref_idx_l1_default_active_minus1 = ue(0, 31)
weighted_pred_flag = u(1)
weighted_bipred_idc = u(2)
pic_init_qp_minus26 = se()
pic_init_qs_minus26 = se()
chroma_qp_index_offset = se()
deblocking_filter_control_present_flag = u(1)
constrained_intra_pred_flag = u(1)
redundant_pic_cnt_present_flag = u(1)
if more_data():
    transform_8x8_mode_flag = u(1)
    pic_scaling_matrix_present_flag = u(1)
    if pic_scaling_matrix_present_flag:
        for i in range(6 + (2 if chroma_format_idc != 3 else 6) * transform_8x8_mode_flag):
''' + scaling('pic_scaling_list_present_flag', 12) + '''
    second_chroma_qp_index_offset = se()
trailing()
''')
    S(lib, 'H264NalUnitHeaderSvcExtensionParser', 'ParseNalUnitHeaderSvcExtension', 'NalUnitHeaderSvcExtensionState', 'bit_buffer', '''
idr_flag = u(1)
priority_id = u(6)
no_inter_layer_pred_flag = u(1)
dependency_id = u(3)
quality_id = u(4)
temporal_id = u(3)
use_ref_base_pic_flag = u(1)
discardable_flag = u(1)
output_flag = u(1)
reserved_three_2bits = u(2)
''')
    S(lib, 'H264NalUnitHeaderParser', 'ParseNalUnitHeader', 'NalUnitHeaderState', 'bit_buffer', '''
forbidden_zero_bit = u(1)
nal_ref_idc = u(2)
nal_unit_type = u(5)
if nal_unit_type in (14, 20, 21):
    if nal_unit_type != 21:
        svc_extension_flag = u(1)
    else:
        avc_3d_extension_flag = u(1)
    if svc_extension_flag:
        nal_unit_header_svc_extension = nested('ParseNalUnitHeaderSvcExtension')
    elif avc_3d_extension_flag:
        unimplemented('nal_unit_header_3davc_extension()')
    else:
        unimplemented('nal_unit_header_mvc_extension()')
''')
    MOD = '''
    while True:
        modification_of_pic_nums_idc[i] = ue(0, 3)
        if modification_of_pic_nums_idc in (0, 1):
            abs_diff_pic_num_minus1[i] = ue()
        elif modification_of_pic_nums_idc == 2:
            long_term_pic_num[i] = ue()
        if modification_of_pic_nums_idc == 3:
            break
'''
    MOD = '\n'.join('    ' + l for l in MOD.split('\n'))
    S(lib, 'H264RefPicListModificationParser', 'ParseRefPicListModification', 'RefPicListModificationState', 'bit_buffer slice_type', '''
slice_type = slice_type
if slice_type % 5 not in (2, 4):
    ref_pic_list_modification_flag_l0 = u(1)
    if ref_pic_list_modification_flag_l0:
''' + MOD + '''
if slice_type % 5 == 1:
    ref_pic_list_modification_flag_l1 = u(1)
    if ref_pic_list_modification_flag_l1:
''' + MOD)
    S(lib, 'H264DecRefPicMarkingParser', 'ParseDecRefPicMarking', 'DecRefPicMarkingState', 'bit_buffer IdrPicFlag', '''
IdrPicFlag = IdrPicFlag
if IdrPicFlag:
    no_output_of_prior_pics_flag = u(1)
    long_term_reference_flag = u(1)
else:
    adaptive_ref_pic_marking_mode_flag = u(1)
    if adaptive_ref_pic_marking_mode_flag:
        while True:
            memory_management_control_operation[i] = ue(0, 6)
            if memory_management_control_operation in (1, 3):
                difference_of_pic_nums_minus1[i] = ue()
            if memory_management_control_operation == 2:
                long_term_pic_num[i] = ue()
            if memory_management_control_operation in (3, 6):
                long_term_frame_idx[i] = ue()
            if memory_management_control_operation == 4:
                max_long_term_frame_idx_plus1[i] = ue()
            if memory_management_control_operation == 0:
                break
''')
    W = '''
for i in range(num_ref_idx_lX_active_minus1 + 1):
    luma_weight_lX_flag[i] = u(1)
    if luma_weight_lX_flag:
        luma_weight_lX[i] = se()
        luma_offset_lX[i] = se()
    if chroma_array_type != 0:
        chroma_weight_lX_flag[i] = u(1)
        if chroma_weight_lX_flag:
            chroma_weight_lX[i] = vector()
            chroma_offset_lX[i] = vector()
            for j in range(2):
                chroma_weight_lX[i][j] = se()
                chroma_offset_lX[i][j] = se()
'''
    S(lib, 'H264PredWeightTableParser', 'ParsePredWeightTable', 'PredWeightTableState',
      'bit_buffer chroma_array_type slice_type num_ref_idx_l0_active_minus1 num_ref_idx_l1_active_minus1', '''
chroma_array_type = chroma_array_type
slice_type = slice_type
num_ref_idx_l0_active_minus1 = num_ref_idx_l0_active_minus1
num_ref_idx_l1_active_minus1 = num_ref_idx_l1_active_minus1
_kc = 1 if chroma_array_type != 0 else 0
luma_log2_weight_denom = ue(0, 7)
if chroma_array_type != 0:
    chroma_log2_weight_denom = ue(0, 7)
''' + W.replace('lX', 'l0') + '''
if slice_type in (1, 6):
''' + W.replace('lX', 'l1').replace('\n', '\n    '), ranges={'num_ref_idx_l0_active_minus1': (0, 31), 'num_ref_idx_l1_active_minus1': (0, 31)})

    POC = '''
if pic_order_cnt_type == 0:
    pic_order_cnt_lsb = u(_sps.log2_max_pic_order_cnt_lsb_minus4 + 4)
    if bottom_field_pic_order_in_frame_present_flag and not field_pic_flag:
        delta_pic_order_cnt_bottom = se()
if pic_order_cnt_type == 1 and not delta_pic_order_always_zero_flag:
    delta_pic_order_cnt[i] = se()
    if bottom_field_pic_order_in_frame_present_flag and not field_pic_flag:
        delta_pic_order_cnt[i] = se()
redundant_pic_cnt_present_flag = _pps.redundant_pic_cnt_present_flag
if redundant_pic_cnt_present_flag:
    redundant_pic_cnt = ue(0, 127)
'''
    DEBLOCK = '''
deblocking_filter_control_present_flag = _pps.deblocking_filter_control_present_flag
if deblocking_filter_control_present_flag:
    disable_deblocking_filter_idc = ue(0, 2)
    if disable_deblocking_filter_idc != 1:
        slice_alpha_c0_offset_div2 = se()
        slice_beta_offset_div2 = se()
num_slice_groups_minus1 = _pps.num_slice_groups_minus1
slice_group_map_type = _pps.slice_group_map_type
if num_slice_groups_minus1 > 0 and slice_group_map_type in (3, 4, 5):
    pic_width_in_mbs_minus1 = _sps.pic_width_in_mbs_minus1
    pic_height_in_map_units_minus1 = _sps.pic_height_in_map_units_minus1
    slice_group_change_rate_minus1 = _pps.slice_group_change_rate_minus1
    slice_group_change_cycle = u(ceil_log2_ratio((pic_width_in_mbs_minus1 + 1) * (pic_height_in_map_units_minus1 + 1), slice_group_change_rate_minus1 + 1))
'''
    S(lib, 'H264SliceHeaderParser', 'ParseSliceHeader', 'SliceHeaderState', 'bit_buffer nal_ref_idc nal_unit_type bitstream_parser_state', '''
nal_ref_idc = nal_ref_idc
nal_unit_type = nal_unit_type
first_mb_in_slice = ue(0, 139263)
slice_type = ue(0, 9)
pic_parameter_set_id = ue(0, 255)
require(found(bitstream_parser_state.pps, pic_parameter_set_id), 'the referenced PPS being known')
_pps = lookup(bitstream_parser_state.pps, pic_parameter_set_id)
require(found(bitstream_parser_state.sps, _pps.seq_parameter_set_id), 'the referenced SPS being known')
_sps = lookup(bitstream_parser_state.sps, _pps.seq_parameter_set_id).sps_data
separate_colour_plane_flag = _sps.separate_colour_plane_flag
if separate_colour_plane_flag:
    colour_plane_id = u(2)
log2_max_frame_num_minus4 = _sps.log2_max_frame_num_minus4
frame_num = u(log2_max_frame_num_minus4 + 4)
frame_mbs_only_flag = _sps.frame_mbs_only_flag
if not frame_mbs_only_flag:
    field_pic_flag = u(1)
    if field_pic_flag:
        bottom_field_flag = u(1)
if nal_unit_type == 5:
    idr_pic_id = ue(0, 65535)
pic_order_cnt_type = _sps.pic_order_cnt_type
bottom_field_pic_order_in_frame_present_flag = _pps.bottom_field_pic_order_in_frame_present_flag
delta_pic_order_always_zero_flag = _sps.delta_pic_order_always_zero_flag
''' + POC + '''
if slice_type in (1, 6):
    direct_spatial_mv_pred_flag = u(1)
if slice_type in (0, 5, 3, 8, 1, 6):
    num_ref_idx_active_override_flag = u(1)
    if num_ref_idx_active_override_flag:
        num_ref_idx_l0_active_minus1 = ue(0, 31)
        if slice_type in (1, 6):
            num_ref_idx_l1_active_minus1 = ue(0, 31)
    else:
        num_ref_idx_l0_active_minus1 = _pps.num_ref_idx_l0_default_active_minus1
        num_ref_idx_l1_active_minus1 = _pps.num_ref_idx_l1_default_active_minus1
if nal_unit_type in (20, 21):
    unimplemented('ref_pic_list_mvc_modification()')
else:
    ref_pic_list_modification = nested('ParseRefPicListModification', slice_type)
weighted_pred_flag = _pps.weighted_pred_flag
weighted_bipred_idc = _pps.weighted_bipred_idc
if (weighted_pred_flag and slice_type in (0, 5, 3, 8)) or (weighted_bipred_idc == 1 and slice_type in (1, 6)):
    pred_weight_table = nested('ParsePredWeightTable', 0 if separate_colour_plane_flag else _sps.chroma_format_idc, slice_type, num_ref_idx_l0_active_minus1, num_ref_idx_l1_active_minus1)
if nal_ref_idc != 0:
    dec_ref_pic_marking = nested('ParseDecRefPicMarking', 1 if nal_unit_type == 5 else 0)
entropy_coding_mode_flag = _pps.entropy_coding_mode_flag
if entropy_coding_mode_flag and slice_type not in (2, 7, 4, 9):
    cabac_init_idc = ue(0, 2)
slice_qp_delta = se()
require(slice_qp_delta >= -(51 + 6 * _sps.bit_depth_luma_minus8) and slice_qp_delta <= 51 + 6 * _sps.bit_depth_luma_minus8, 'slice_qp_delta range')
if slice_type in (3, 8, 4, 9):
    if slice_type in (3, 8):
        sp_for_switch_flag = u(1)
    slice_qs_delta = se()
''' + DEBLOCK)

    S(lib, 'H264SliceHeaderInScalableExtensionParser', 'ParseSliceHeaderInScalableExtension', 'SliceHeaderInScalableExtensionState', 'bit_buffer nal_unit_header bitstream_parser_state', '''
nal_ref_idc = nal_unit_header.nal_ref_idc
nal_unit_type = nal_unit_header.nal_unit_type
first_mb_in_slice = ue(0, 139263)
slice_type = ue(0, 9)
pic_parameter_set_id = ue(0, 255)
require(found(bitstream_parser_state.pps, pic_parameter_set_id), 'the referenced PPS being known')
_pps = lookup(bitstream_parser_state.pps, pic_parameter_set_id)
require(found(bitstream_parser_state.subset_sps, _pps.seq_parameter_set_id), 'the referenced subset SPS being known')
_ssps = lookup(bitstream_parser_state.subset_sps, _pps.seq_parameter_set_id)
require(_ssps.seq_parameter_set_svc_extension, 'the subset SPS having an SVC extension')
_sps = _ssps.seq_parameter_set_data
_svc = _ssps.seq_parameter_set_svc_extension
separate_colour_plane_flag = _sps.separate_colour_plane_flag
if separate_colour_plane_flag:
    colour_plane_id = u(2)
log2_max_frame_num_minus4 = _sps.log2_max_frame_num_minus4
frame_num = u(log2_max_frame_num_minus4 + 4)
frame_mbs_only_flag = _sps.frame_mbs_only_flag
if not frame_mbs_only_flag:
    field_pic_flag = u(1)
    if field_pic_flag:
        bottom_field_flag = u(1)
require(nal_unit_header.nal_unit_header_svc_extension, 'the NAL unit header having an SVC extension')
_nal = nal_unit_header.nal_unit_header_svc_extension
idr_flag = _nal.idr_flag
if idr_flag:
    idr_pic_id = ue(0, 65535)
pic_order_cnt_type = _sps.pic_order_cnt_type
bottom_field_pic_order_in_frame_present_flag = _pps.bottom_field_pic_order_in_frame_present_flag
delta_pic_order_always_zero_flag = _sps.delta_pic_order_always_zero_flag
''' + POC + '''
no_inter_layer_pred_flag = _nal.no_inter_layer_pred_flag
quality_id = _nal.quality_id
slice_header_restriction_flag = _svc.slice_header_restriction_flag
if quality_id == 0:
    if slice_type in (1, 6):
        direct_spatial_mv_pred_flag = u(1)
    if slice_type in (0, 5, 1, 6):
        num_ref_idx_active_override_flag = u(1)
        if num_ref_idx_active_override_flag:
            num_ref_idx_l0_active_minus1 = ue(0, 31)
            if slice_type in (1, 6):
                num_ref_idx_l1_active_minus1 = ue(0, 31)
        else:
            num_ref_idx_l0_active_minus1 = _pps.num_ref_idx_l0_default_active_minus1
            num_ref_idx_l1_active_minus1 = _pps.num_ref_idx_l1_default_active_minus1
    ref_pic_list_modification = nested('ParseRefPicListModification', slice_type)
    weighted_pred_flag = _pps.weighted_pred_flag
    weighted_bipred_idc = _pps.weighted_bipred_idc
    if (weighted_pred_flag and slice_type in (0, 5)) or (weighted_bipred_idc == 1 and slice_type in (1, 6)):
        if not no_inter_layer_pred_flag:
            base_pred_weight_table_flag = u(1)
        if no_inter_layer_pred_flag or not base_pred_weight_table_flag:
            pred_weight_table = nested('ParsePredWeightTable', 0 if separate_colour_plane_flag else _sps.chroma_format_idc, slice_type, num_ref_idx_l0_active_minus1, num_ref_idx_l1_active_minus1)
            ChromaArrayType = 0 if separate_colour_plane_flag else _sps.chroma_format_idc
    if nal_unit_header.nal_ref_idc != 0:
        dec_ref_pic_marking = nested('ParseDecRefPicMarking', idr_flag)
        if not slice_header_restriction_flag:
            store_ref_base_pic_flag = u(1)
            use_ref_base_pic_flag = _nal.use_ref_base_pic_flag
            if (use_ref_base_pic_flag or store_ref_base_pic_flag) and not idr_flag:
                unimplemented('dec_ref_base_pic_marking()')
entropy_coding_mode_flag = _pps.entropy_coding_mode_flag
if entropy_coding_mode_flag and slice_type not in (2, 7):
    cabac_init_idc = ue(0, 2)
slice_qp_delta = se()
''' + DEBLOCK.replace('ue(0, 2)', 'ue(0, 6)') + '''
if not no_inter_layer_pred_flag and quality_id == 0:
    ref_layer_dq_id = ue()
    inter_layer_deblocking_filter_control_present_flag = _svc.inter_layer_deblocking_filter_control_present_flag
    if inter_layer_deblocking_filter_control_present_flag:
        disable_inter_layer_deblocking_filter_idc = ue()
        if disable_inter_layer_deblocking_filter_idc != 1:
            inter_layer_slice_alpha_c0_offset_div2 = se()
            inter_layer_slice_beta_offset_div2 = se()
    constrained_intra_resampling_flag = u(1)
    extended_spatial_scalability_idc = _svc.extended_spatial_scalability_idc
    if extended_spatial_scalability_idc == 2:
        if (0 if separate_colour_plane_flag else _sps.chroma_format_idc) > 0:
            ref_layer_chroma_phase_x_plus1_flag = u(1)
            ref_layer_chroma_phase_y_plus1 = u(2)
        ChromaArrayType = 0 if separate_colour_plane_flag else _sps.chroma_format_idc
        scaled_ref_layer_left_offset = se()
        scaled_ref_layer_top_offset = se()
        scaled_ref_layer_right_offset = se()
        scaled_ref_layer_bottom_offset = se()
if not no_inter_layer_pred_flag:
    slice_skip_flag = u(1)
    if slice_skip_flag:
        num_mbs_in_slice_minus1 = ue()
    else:
        adaptive_base_mode_flag = u(1)
        if not adaptive_base_mode_flag:
            default_base_mode_flag = u(1)
        if not default_base_mode_flag:
            adaptive_motion_prediction_flag = u(1)
            if not adaptive_motion_prediction_flag:
                default_motion_prediction_flag = u(1)
        adaptive_residual_prediction_flag = u(1)
        if not adaptive_residual_prediction_flag:
            default_residual_prediction_flag = u(1)
    adaptive_tcoeff_level_prediction_flag = _svc.adaptive_tcoeff_level_prediction_flag
    if adaptive_tcoeff_level_prediction_flag:
        tcoeff_level_prediction_flag = u(1)
if not slice_header_restriction_flag and not slice_skip_flag:
    scan_idx_start = u(4)
    scan_idx_end = u(4)
''')
    S(lib, 'H264PrefixNalUnitSvcParser', 'ParsePrefixNalUnitSvc', 'PrefixNalUnitSvcState', 'bit_buffer nal_ref_idc use_ref_base_pic_flag idr_flag', '''
nal_ref_idc = nal_ref_idc
use_ref_base_pic_flag = use_ref_base_pic_flag
idr_flag = idr_flag
if nal_ref_idc != 0:
    store_ref_base_pic_flag = u(1)
    if (use_ref_base_pic_flag or store_ref_base_pic_flag) and not idr_flag:
        unimplemented('dec_ref_base_pic_marking()')
    additional_prefix_nal_unit_extension_flag = u(1)
    if additional_prefix_nal_unit_extension_flag == 1:
        while more_data():
            additional_prefix_nal_unit_extension_data_flag = u(1)
    trailing()
elif more_data():
    while more_data():
        additional_prefix_nal_unit_extension_data_flag = u(1)
    trailing()
''')
    S(lib, 'H264PrefixNalUnitRbspParser', 'ParsePrefixNalUnitRbsp', 'PrefixNalUnitRbspState', 'bit_buffer svc_extension_flag nal_ref_idc use_ref_base_pic_flag idr_flag', '''
svc_extension_flag = svc_extension_flag
nal_ref_idc = nal_ref_idc
use_ref_base_pic_flag = use_ref_base_pic_flag
idr_flag = idr_flag
if svc_extension_flag == 1:
    prefix_nal_unit_svc = nested('ParsePrefixNalUnitSvc', nal_ref_idc, use_ref_base_pic_flag, idr_flag)
''')
    S(lib, 'H264SliceLayerWithoutPartitioningRbspParser', 'ParseSliceLayerWithoutPartitioningRbsp', 'SliceLayerWithoutPartitioningRbspState', 'bit_buffer nal_ref_idc nal_unit_type bitstream_parser_state', '''
nal_ref_idc = nal_ref_idc
nal_unit_type = nal_unit_type
slice_header = nested('ParseSliceHeader', nal_ref_idc, nal_unit_type, bitstream_parser_state)
''')
    S(lib, 'H264SliceLayerExtensionRbspParser', 'ParseSliceLayerExtensionRbsp', 'SliceLayerExtensionRbspState', 'bit_buffer nal_unit_header bitstream_parser_state', '''
svc_extension_flag = nal_unit_header.svc_extension_flag
avc_3d_extension_flag = nal_unit_header.avc_3d_extension_flag
nal_ref_idc = nal_unit_header.nal_ref_idc
nal_unit_type = nal_unit_header.nal_unit_type
if svc_extension_flag:
    slice_header_in_scalable_extension = nested('ParseSliceHeaderInScalableExtension', nal_unit_header, bitstream_parser_state)
elif avc_3d_extension_flag:
    unimplemented('slice_header_in_3davc_extension()')
else:
    slice_header = nested('ParseSliceHeader', nal_ref_idc, nal_unit_type, bitstream_parser_state)
''')

    # ---- NAL unit and RTP packets: the structures above in their containers
    S(lib, 'H264NalUnitPayloadParser', 'ParseNalUnitPayload', 'NalUnitPayloadState', 'bit_buffer nal_unit_header bitstream_parser_state', '', kind='extern', infallible=True)
    S(lib, 'NaluChecksum', 'GetNaluChecksum', None, 'bit_buffer', '', kind='extern', infallible=True)
    lib.specs[N + 'NaluChecksum::GetNaluChecksum'].struct = N + 'NaluChecksum'
    disp = '''
if nal_unit_type == 1 or nal_unit_type == 5:
    slice_layer_without_partitioning_rbsp = attempt('ParseSliceLayerWithoutPartitioningRbsp', nal_ref_idc, nal_unit_type, bitstream_parser_state)
elif nal_unit_type == 7:
    sps = attempt('ParseSps')
    if sps != None:
        put(bitstream_parser_state.sps, sps.sps_data.seq_parameter_set_id, sps)
elif nal_unit_type == 8:
    pps = attempt('ParsePps', 1)
    if pps != None:
        put(bitstream_parser_state.pps, pps.pic_parameter_set_id, pps)
elif nal_unit_type == 14:
    %s
elif nal_unit_type == 15:
    subset_sps = attempt('ParseSubsetSps')
    if subset_sps != None:
        put(bitstream_parser_state.subset_sps, subset_sps.seq_parameter_set_data.seq_parameter_set_id, subset_sps)
elif nal_unit_type == 20:
    slice_layer_extension_rbsp = attempt('ParseSliceLayerExtensionRbsp', %s, bitstream_parser_state)
'''
    prefix = '''if nal_unit_header.svc_extension_flag and nal_unit_header.nal_unit_header_svc_extension != None:
        prefix_nal_unit = attempt('ParsePrefixNalUnitRbsp', nal_unit_header.svc_extension_flag, nal_unit_header.nal_ref_idc, nal_unit_header.nal_unit_header_svc_extension.use_ref_base_pic_flag, nal_unit_header.nal_unit_header_svc_extension.idr_flag)'''
    PAY = N + 'H264NalUnitPayloadParser::ParseNalUnitPayload'
    for label, args, body, need in (
            ('', 'bit_buffer nal_unit_header bitstream_parser_state', (disp % (prefix, 'nal_unit_header')).replace('nal_unit_type', 'nal_unit_header.nal_unit_type').replace(' nal_ref_idc', ' nal_unit_header.nal_ref_idc').replace('nal_unit_header.nal_unit_header.', 'nal_unit_header.'), 'BitBuffer*, h264nal::H264NalUnitHeaderParser::NalUnitHeaderState&'),
            (' [type, ref_idc]', 'bit_buffer nal_ref_idc nal_unit_type bitstream_parser_state', disp % ('pass', 'struct(forbidden_zero_bit=0, nal_ref_idc=nal_ref_idc, nal_unit_type=nal_unit_type, svc_extension_flag=0, avc_3d_extension_flag=0, nal_unit_header_svc_extension=None)'), 'BitBuffer*, unsigned int, unsigned int')):
        S(lib, 'H264NalUnitPayloadParser', 'ParseNalUnitPayload dispatch' + label, 'NalUnitPayloadState', args, body, group='dispatch', apart=True, maps=True,
          q=PAY, need=need, inline=(PAY,), structs={k: N + 'H264NalUnitHeaderParser::NalUnitHeaderState' for k in ('forbidden_zero_bit', 'nal_ref_idc', 'nal_unit_type', 'svc_extension_flag', 'avc_3d_extension_flag', 'nal_unit_header_svc_extension')})
    S(lib, 'H264NalUnitParser', 'ParseNalUnit', 'NalUnitState', 'bit_buffer bitstream_parser_state parsing_options', '''
if parsing_options.add_checksum:
    checksum = nested('GetNaluChecksum')
nal_unit_header = nested('ParseNalUnitHeader')
nal_unit_payload = nested('ParseNalUnitPayload', nal_unit_header, bitstream_parser_state)
parsed_length = offset()
''', group='unit')
    S(lib, 'H264RtpSingleParser', 'ParseRtpSingle', 'RtpSingleState', 'bit_buffer bitstream_parser_state', '''
nal_unit_header = nested('ParseNalUnitHeader')
nal_unit_payload = nested('ParseNalUnitPayload', nal_unit_header, bitstream_parser_state)
''', group='rtp')
    S(lib, 'H264RtpFuAParser', 'ParseRtpFuA', 'RtpFuAState', 'bit_buffer nal_ref_idc bitstream_parser_state', '''
nal_ref_idc = nal_ref_idc
header = nested('ParseNalUnitHeader')
s_bit = u(1)
e_bit = u(1)
r_bit = u(1)
fu_type = u(5)
if s_bit:
    nal_unit_payload = nested('ParseNalUnitPayload', nal_ref_idc, fu_type, bitstream_parser_state)
''', group='rtp')
    S(lib, 'H264RtpStapAParser', 'ParseRtpStapA', 'RtpStapAState', 'bit_buffer bitstream_parser_state', '''
header = nested('ParseNalUnitHeader')
while remaining() > 0:
    nal_unit_sizes[i] = u(16)
    require(nal_unit_sizes * 8 <= remaining(), 'the aggregated unit fitting in the packet')
    nal_unit_headers[i] = nested('ParseNalUnitHeader')
    nal_unit_payloads[i] = nested('ParseNalUnitPayload', nal_unit_headers, bitstream_parser_state)
''', group='rtp')
    S(lib, 'H264RtpParser', 'ParseRtp', 'RtpState', 'bit_buffer bitstream_parser_state', '''
nal_unit_header = nested('ParseNalUnitHeader')
event('seek', 0, 0)
if nal_unit_header.nal_unit_type <= 23:
    rtp_single = nested('ParseRtpSingle', bitstream_parser_state)
elif nal_unit_header.nal_unit_type == 24:
    rtp_stapa = nested('ParseRtpStapA', bitstream_parser_state)
elif nal_unit_header.nal_unit_type == 28:
    rtp_fua = nested('ParseRtpFuA', nal_unit_header.nal_ref_idc, bitstream_parser_state)
''', group='rtp', events=True)
