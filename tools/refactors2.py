from refactors import *
import refactors
MMCOLOOP = r'      do \{.*?while \(\s*dec_ref_pic_marking->memory_management_control_operation.back\(\) != 0\);'
ref('mmco-done', (MMCO, lambda s: re.sub(MMCOLOOP, '''      bool more = true;
      while (more) {
        uint32_t op = 0;
        if (!bit_buffer->ReadExponentialGolomb(op)) {
          return nullptr;
        }
        if (op > 6) {
          return nullptr;
        }
        dec_ref_pic_marking->memory_management_control_operation.push_back(op);
        if (op == 1 || op == 3) {
          if (!bit_buffer->ReadExponentialGolomb(golomb_tmp)) {
            return nullptr;
          }
          dec_ref_pic_marking->difference_of_pic_nums_minus1.push_back(
              golomb_tmp);
        }
        if (op == 2) {
          if (!bit_buffer->ReadExponentialGolomb(golomb_tmp)) {
            return nullptr;
          }
          dec_ref_pic_marking->long_term_pic_num.push_back(golomb_tmp);
        }
        if (op == 3 || op == 6) {
          if (!bit_buffer->ReadExponentialGolomb(golomb_tmp)) {
            return nullptr;
          }
          dec_ref_pic_marking->long_term_frame_idx.push_back(golomb_tmp);
        }
        if (op == 4) {
          if (!bit_buffer->ReadExponentialGolomb(golomb_tmp)) {
            return nullptr;
          }
          dec_ref_pic_marking->max_long_term_frame_idx_plus1.push_back(
              golomb_tmp);
        }
        more = op != 0;
      }''', s, count=1, flags=re.S)))
ref('hrd-countdown', (HRD, lambda s: re.sub(r'  for \(uint32_t SchedSelIdx = 0; SchedSelIdx <= hrd_parameters->cpb_cnt_minus1;\s*SchedSelIdx\+\+\) \{', '  for (uint32_t left = hrd_parameters->cpb_cnt_minus1 + 1; left > 0; --left) {', s)))
ref('hrd-sizeloop', (HRD, lambda s: re.sub(r'  for \(uint32_t SchedSelIdx = 0; SchedSelIdx <= hrd_parameters->cpb_cnt_minus1;\s*SchedSelIdx\+\+\) \{', '  while (hrd_parameters->cbr_flag.size() <= hrd_parameters->cpb_cnt_minus1) {', s)))
ref('hrd-fail-goto', (HRD, lambda s: s.replace('''  if (!bit_buffer->ReadBits(5, (hrd_parameters->time_offset_length))) {
    return nullptr;
  }
''', '''  const bool ok = bit_buffer->ReadBits(5, (hrd_parameters->time_offset_length));
  if (!ok) {
    hrd_parameters.reset();
  }
''')))
ref('hrd-nested-ok', (HRD, lambda s: s.replace('''  if (hrd_parameters->cpb_cnt_minus1 < kCpbCntMinus1Min ||
      hrd_parameters->cpb_cnt_minus1 > kCpbCntMinus1Max) {''', '''  const uint32_t n = hrd_parameters->cpb_cnt_minus1;
  const bool bad = n > kCpbCntMinus1Max;
  if (bad) {''')))
NUHX = 'src/h264_nal_unit_header_parser.cc'
ref('nuh-shift', (NUHX, lambda s: s))
SPSX = 'src/h264_sps_parser.cc'
ref('sps-profile-switch', (SPSX, lambda s: re.sub(r'  if \(sps_data->profile_idc == 100 \|\|.*?\) \{', '''  bool high = false;
  switch (sps_data->profile_idc) {
    case 100:
    case 110:
    case 122:
    case 244:
    case 44:
    case 83:
    case 86:
    case 118:
    case 128:
    case 138:
    case 139:
    case 134:
    case 135:
      high = true;
      break;
    default:
      break;
  }
  if (high) {''', s, count=1, flags=re.S)))
ref('sps-profile-helper', (SPSX, lambda s: re.sub(r'  if \(sps_data->profile_idc == 100 \|\|.*?\) \{', '''  if (HasChromaInfo(sps_data->profile_idc)) {''', s, count=1, flags=re.S)), (SPSX, lambda s: s.replace('namespace h264nal {\n', '''namespace h264nal {

namespace {
bool HasChromaInfo(uint32_t profile_idc) {
  static const uint32_t kProfiles[] = {100, 110, 122, 244, 44,  83, 86,
                                       118, 128, 138, 139, 134, 135};
  for (uint32_t p : kProfiles) {
    if (p == profile_idc) {
      return true;
    }
  }
  return false;
}
}  // namespace
''', 1)))
ref('sps-crop', (SPSX, lambda s: s))
SHI = 'src/h264_slice_header_in_scalable_extension_parser.cc'
ref('shise-isb', (SHI, lambda s: s.replace('''        if ((shise->slice_type == SvcSliceType::EBa) ||
            (shise->slice_type == SvcSliceType::EBb)) {  // slice_type == EB
          // num_ref_idx_l1''', '''        const bool eb = shise->slice_type == SvcSliceType::EBa ||
                        shise->slice_type == SvcSliceType::EBb;
        if (eb) {
          // num_ref_idx_l1''')))
PRE = 'src/h264_prefix_nal_unit_parser.cc'
ref('prefix-dowhile', (PRE, lambda s: s.replace('''  } else if (more_rbsp_data(bit_buffer)) {
    while (more_rbsp_data(bit_buffer)) {
      // additional_prefix_nal_unit_extension_data_flag  u(1)
      if (!bit_buffer->ReadBits(
              1, prefix_nal_unit_svc
                     ->additional_prefix_nal_unit_extension_data_flag)) {
        return nullptr;
      }
    }
''', '''  } else if (more_rbsp_data(bit_buffer)) {
    do {
      // additional_prefix_nal_unit_extension_data_flag  u(1)
      if (!bit_buffer->ReadBits(
              1, prefix_nal_unit_svc
                     ->additional_prefix_nal_unit_extension_data_flag)) {
        return nullptr;
      }
    } while (more_rbsp_data(bit_buffer));
''')))
PPSX = 'src/h264_pps_parser.cc'
ref('pps-len-loop', (PPSX, body('uint32_t H264PpsParser::PpsState::getSliceGroupIdLen()', '''
uint32_t H264PpsParser::PpsState::getSliceGroupIdLen() noexcept {
  // Ceil(Log2(num_slice_groups_minus1 + 1)) without floating point
  uint32_t bits = 0;
  while ((1u << bits) < num_slice_groups_minus1 + 1) {
    bits++;
  }
  return bits;
}''')))
ref('slice-fields-last', (SH, lambda s: s.replace('''  slice_header->log2_max_frame_num_minus4 = sps_data->log2_max_frame_num_minus4;
''', '').replace('''  uint32_t frame_num_len =
      slice_header->getFrameNumLen(slice_header->log2_max_frame_num_minus4);''', '''  uint32_t frame_num_len =
      slice_header->getFrameNumLen(sps_data->log2_max_frame_num_minus4);''').replace('''  return slice_header;
}''', '''  slice_header->log2_max_frame_num_minus4 = sps_data->log2_max_frame_num_minus4;
  return slice_header;
}''')))
ref('slice-active', (SH, lambda s: s.replace('''  uint32_t sps_id = pps->seq_parameter_set_id;''', '''  const H264PpsParser::PpsState& active_pps = *pps;
  const uint32_t sps_id = active_pps.seq_parameter_set_id;''').replace('pps->weighted_pred_flag', 'active_pps.weighted_pred_flag').replace('pps->num_ref_idx', 'active_pps.num_ref_idx')))
ref('slice-noop', (SH, lambda s: s.replace('  // pic_parameter_set_id  ue(v)\n', '  // pic_parameter_set_id  ue(v)\n  (void)nal_ref_idc;\n  int unused_counter = 0;\n  for (int q = 0; q < 3; ++q) unused_counter += q;\n  (void)unused_counter;\n', 1)))
ref('slice-qp', (SH, lambda s: re.sub(r'''  if \(slice_header->slice_qp_delta <\n.*?bit_depth_luma_minus8\)\)\) \{''', '''  const int32_t qp_limit =
      51 + 6 * static_cast<int32_t>(sps_data->bit_depth_luma_minus8);
  if (slice_header->slice_qp_delta < -qp_limit ||
      slice_header->slice_qp_delta > qp_limit) {''', s, count=1, flags=re.S)))
ref('slice-poc', (SH, lambda s: s.replace('''    slice_header->delta_pic_order_cnt.push_back(sgolomb_tmp);
''', '''    slice_header->delta_pic_order_cnt.emplace_back(sgolomb_tmp);
''')))
if __name__ == '__main__':
    main()
