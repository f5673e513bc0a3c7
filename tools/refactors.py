#!/usr/bin/env python3
"""Behaviour-preserving edits: every check must stay quiet on them.
Applied one by one to the scratch clone /tmp/wt; nothing is written to /repo."""
import os, re, subprocess, sys
from seedlib import sync, build, tests, WT, VERIF
R = []


def ref(name, *edits):
    R.append((name, edits))


def body(fn_head, new):
    """replace from fn_head up to the closing brace in column 0"""
    def f(s):
        i = s.index(fn_head)
        j = s.index('\n}\n', i)
        return s[:i] + new.strip('\n') + s[j + 2:]
    return f


def sub(old, new, n=1):
    def f(s):
        assert s.count(old) == n, (s.count(old), old)
        return s.replace(old, new)
    return f


HRD = 'src/h264_hrd_parameters_parser.cc'
ref('hrd-helper', (HRD, sub('''// Unpack RBSP and parse HRD parameters''', '''namespace {
bool ReadSchedule(BitBuffer* bit_buffer,
                  H264HrdParametersParser::HrdParametersState* state) {
  uint32_t bit_rate_value = 0;
  uint32_t cpb_size_value = 0;
  uint32_t cbr = 0;
  if (!bit_buffer->ReadExponentialGolomb(bit_rate_value) ||
      !bit_buffer->ReadExponentialGolomb(cpb_size_value) ||
      !bit_buffer->ReadBits(1, cbr)) {
    return false;
  }
  state->bit_rate_value_minus1.push_back(bit_rate_value);
  state->cpb_size_value_minus1.push_back(cpb_size_value);
  state->cbr_flag.push_back(cbr);
  return true;
}
}  // namespace

// Unpack RBSP and parse HRD parameters''') if False else (lambda s: s)),
    (HRD, lambda s: s.replace('namespace h264nal {\n', '''namespace h264nal {

namespace {
bool ReadSchedule(BitBuffer* bit_buffer,
                  H264HrdParametersParser::HrdParametersState* state) {
  uint32_t bit_rate_value = 0;
  uint32_t cpb_size_value = 0;
  uint32_t cbr = 0;
  if (!bit_buffer->ReadExponentialGolomb(bit_rate_value) ||
      !bit_buffer->ReadExponentialGolomb(cpb_size_value) ||
      !bit_buffer->ReadBits(1, cbr)) {
    return false;
  }
  state->bit_rate_value_minus1.push_back(bit_rate_value);
  state->cpb_size_value_minus1.push_back(cpb_size_value);
  state->cbr_flag.push_back(cbr);
  return true;
}
}  // namespace
''', 1)),
    (HRD, lambda s: re.sub(r'  for \(uint32_t SchedSelIdx = 0;.*?\n  }\n', '''  uint32_t sched = 0;
  while (sched <= hrd_parameters->cpb_cnt_minus1) {
    if (!ReadSchedule(bit_buffer, hrd_parameters.get())) {
      return nullptr;
    }
    ++sched;
  }
''', s, count=1, flags=re.S)))
ref('hrd-table', (HRD, lambda s: re.sub(r'  // initial_cpb_removal_delay_length_minus1  u\(5\).*?\n  return hrd_parameters;', '''  uint32_t* const lengths[] = {
      &hrd_parameters->initial_cpb_removal_delay_length_minus1,
      &hrd_parameters->cpb_removal_delay_length_minus1,
      &hrd_parameters->dpb_output_delay_length_minus1,
      &hrd_parameters->time_offset_length};
  for (uint32_t* field : lengths) {
    if (!bit_buffer->ReadBits(5, *field)) {
      return nullptr;
    }
  }

  return hrd_parameters;''', s, count=1, flags=re.S)))
ref('hrd-resize', (HRD, lambda s: re.sub(r'  for \(uint32_t SchedSelIdx = 0;.*?\n  }\n', '''  const size_t count = static_cast<size_t>(hrd_parameters->cpb_cnt_minus1) + 1;
  hrd_parameters->bit_rate_value_minus1.resize(count);
  hrd_parameters->cpb_size_value_minus1.resize(count);
  hrd_parameters->cbr_flag.resize(count);
  for (size_t i = 0; i < count; i++) {
    if (!bit_buffer->ReadExponentialGolomb(
            hrd_parameters->bit_rate_value_minus1[i]) ||
        !bit_buffer->ReadExponentialGolomb(
            hrd_parameters->cpb_size_value_minus1[i]) ||
        !bit_buffer->ReadBits(1, hrd_parameters->cbr_flag[i])) {
      return nullptr;
    }
  }
''', s, count=1, flags=re.S)))
MMCO = 'src/h264_dec_ref_pic_marking_parser.cc'
ref('mmco-switch', (MMCO, lambda s: re.sub(r'      do \{.*?while \(\s*dec_ref_pic_marking->memory_management_control_operation.back\(\) != 0\);', '''      auto read_into = [bit_buffer](std::vector<uint32_t>& list) {
        uint32_t value = 0;
        if (!bit_buffer->ReadExponentialGolomb(value)) {
          return false;
        }
        list.push_back(value);
        return true;
      };
      uint32_t operation = 0;
      do {
        if (!bit_buffer->ReadExponentialGolomb(operation) || operation > 6) {
          return nullptr;
        }
        dec_ref_pic_marking->memory_management_control_operation.push_back(
            operation);
        bool ok = true;
        switch (operation) {
          case 1:
            ok = read_into(dec_ref_pic_marking->difference_of_pic_nums_minus1);
            break;
          case 2:
            ok = read_into(dec_ref_pic_marking->long_term_pic_num);
            break;
          case 3:
            ok = read_into(
                     dec_ref_pic_marking->difference_of_pic_nums_minus1) &&
                 read_into(dec_ref_pic_marking->long_term_frame_idx);
            break;
          case 4:
            ok = read_into(dec_ref_pic_marking->max_long_term_frame_idx_plus1);
            break;
          case 6:
            ok = read_into(dec_ref_pic_marking->long_term_frame_idx);
            break;
          default:
            break;
        }
        if (!ok) {
          return nullptr;
        }
      } while (operation != 0);''', s, count=1, flags=re.S)), (MMCO, sub('  uint32_t golomb_tmp;\n', '')))
RPLM = 'src/h264_ref_pic_list_modification_parser.cc'


def rplm(s):
    i = s.index('  if (((slice_type % 5) != 2)')
    j = s.index('  return ref_pic_list_modification;', i)
    s = s[:i] + '''  if (((slice_type % 5) != 2) && ((slice_type % 5) != 4)) {
    // slice_type is neither I nor SI
    if (!bit_buffer->ReadBits(
            1,
            (ref_pic_list_modification->ref_pic_list_modification_flag_l0))) {
      return nullptr;
    }
    if (ref_pic_list_modification->ref_pic_list_modification_flag_l0 &&
        !ReadModifications(bit_buffer, ref_pic_list_modification.get())) {
      return nullptr;
    }
  }

  if ((slice_type % 5) == 1) {
    if (!bit_buffer->ReadBits(
            1,
            (ref_pic_list_modification->ref_pic_list_modification_flag_l1))) {
      return nullptr;
    }
    if (ref_pic_list_modification->ref_pic_list_modification_flag_l1 &&
        !ReadModifications(bit_buffer, ref_pic_list_modification.get())) {
      return nullptr;
    }
  }

''' + s[j:]
    s = s.replace('  uint32_t golomb_tmp;\n', '')
    return s.replace('namespace h264nal {\n', '''namespace h264nal {

// the modification loop shared by both lists
static bool ReadModifications(
    BitBuffer* bit_buffer,
    H264RefPicListModificationParser::RefPicListModificationState* state) {
  while (true) {
    uint32_t idc;
    if (!bit_buffer->ReadExponentialGolomb(idc)) {
      return false;
    }
    if (idc > 3) {
      return false;
    }
    state->modification_of_pic_nums_idc.push_back(idc);
    if (idc == 3) {
      return true;
    }
    uint32_t value;
    if (!bit_buffer->ReadExponentialGolomb(value)) {
      return false;
    }
    if (idc == 2) {
      state->long_term_pic_num.push_back(value);
    } else {
      state->abs_diff_pic_num_minus1.push_back(value);
    }
  }
}
''', 1)


ref('rplm-helper', (RPLM, rplm))
PWT = 'src/h264_pred_weight_table_parser.cc'


def pwt(s):
    i = s.index('  for (uint32_t i = 0; i <= pred_weight_table->num_ref_idx_l0_active_minus1;')
    j = s.index('  return pred_weight_table;', i)
    s = s[:i] + '''  if (!ReadWeights(bit_buffer, num_ref_idx_l0_active_minus1 + 1,
                   chroma_array_type != 0,
                   pred_weight_table->luma_weight_l0_flag,
                   pred_weight_table->luma_weight_l0,
                   pred_weight_table->luma_offset_l0,
                   pred_weight_table->chroma_weight_l0_flag,
                   pred_weight_table->chroma_weight_l0,
                   pred_weight_table->chroma_offset_l0)) {
    return nullptr;
  }
  const bool is_b = slice_type == SliceType::B || slice_type == SliceType::B_ALL;
  if (is_b && !ReadWeights(bit_buffer, num_ref_idx_l1_active_minus1 + 1,
                           chroma_array_type != 0,
                           pred_weight_table->luma_weight_l1_flag,
                           pred_weight_table->luma_weight_l1,
                           pred_weight_table->luma_offset_l1,
                           pred_weight_table->chroma_weight_l1_flag,
                           pred_weight_table->chroma_weight_l1,
                           pred_weight_table->chroma_offset_l1)) {
    return nullptr;
  }

''' + s[j:]
    s = s.replace('  uint32_t bits_tmp;\n  int32_t sgolomb_tmp;\n', '')
    return s.replace('namespace h264nal {\n', '''namespace h264nal {

namespace {
bool ReadWeights(BitBuffer* bit_buffer, uint32_t count, bool chroma,
                 std::vector<uint32_t>& luma_flag, std::vector<int32_t>& luma_w,
                 std::vector<int32_t>& luma_o,
                 std::vector<uint32_t>& chroma_flag,
                 std::vector<std::vector<int32_t>>& chroma_w,
                 std::vector<std::vector<int32_t>>& chroma_o) {
  for (uint32_t i = 0; i < count; ++i) {
    uint32_t flag;
    int32_t weight;
    int32_t offset;
    if (!bit_buffer->ReadBits(1, flag)) {
      return false;
    }
    luma_flag.push_back(flag);
    if (flag) {
      if (!bit_buffer->ReadSignedExponentialGolomb(weight) ||
          !bit_buffer->ReadSignedExponentialGolomb(offset)) {
        return false;
      }
      luma_w.push_back(weight);
      luma_o.push_back(offset);
    }
    if (!chroma) {
      continue;
    }
    if (!bit_buffer->ReadBits(1, flag)) {
      return false;
    }
    chroma_flag.push_back(flag);
    if (flag == 0) {
      continue;
    }
    chroma_w.emplace_back();
    chroma_o.emplace_back();
    for (int j = 0; j < 2; ++j) {
      if (!bit_buffer->ReadSignedExponentialGolomb(weight) ||
          !bit_buffer->ReadSignedExponentialGolomb(offset)) {
        return false;
      }
      chroma_w.back().push_back(weight);
      chroma_o.back().push_back(offset);
    }
  }
  return true;
}
}  // namespace
''', 1)


ref('pwt-helper', (PWT, pwt))
SH = 'src/h264_slice_header_parser.cc'
ref('slice-types', (SH, lambda s: s.replace('''  if ((slice_header->slice_type == SliceType::B) ||
      (slice_header->slice_type == SliceType::B_ALL)) {''', '''  const bool is_b = (slice_header->slice_type % 5) == SliceType::B;
  const bool is_p = (slice_header->slice_type % 5) == SliceType::P;
  const bool is_sp = (slice_header->slice_type % 5) == SliceType::SP;
  const bool is_intra = !is_b && !is_p && !is_sp;
  if (is_b) {''', 1)),
    (SH, lambda s: re.sub(r'  if \(\(slice_header->slice_type == SliceType::P\) \|\|\n.*?SliceType::B_ALL\)\) \{', '  if (is_p || is_sp || is_b) {', s, count=1, flags=re.S)),
    (SH, sub('''      (slice_header->slice_type != SliceType::I) &&
      (slice_header->slice_type != SliceType::I_ALL) &&
      (slice_header->slice_type != SliceType::SI) &&
      (slice_header->slice_type != SliceType::SI_ALL)) {''', '      !is_intra) {')))
ref('slice-lookup', (SH, lambda s: re.sub(r'  if \(bitstream_parser_state->pps.find\(pps_id\) ==.*?auto& pps = bitstream_parser_state->pps\[pps_id\];', '''  const auto pps = bitstream_parser_state->GetPps(pps_id);
  if (!pps) {
    return nullptr;
  }''', s, count=1, flags=re.S)),
    (SH, lambda s: re.sub(r'  if \(bitstream_parser_state->sps.find\(sps_id\) ==.*?auto& sps = bitstream_parser_state->sps\[sps_id\];', '''  const auto sps_it = bitstream_parser_state->sps.find(sps_id);
  if (sps_it == bitstream_parser_state->sps.end()) {
    return nullptr;
  }
  const auto& sps = sps_it->second;''', s, count=1, flags=re.S)))
ref('slice-widths', (SH, lambda s: s.replace('''  uint32_t frame_num_len =
      slice_header->getFrameNumLen(slice_header->log2_max_frame_num_minus4);''', '''  const uint32_t frame_num_len = sps_data->log2_max_frame_num_minus4 + 4;''').replace('''  uint32_t IdrPicFlag = ((slice_header->nal_unit_type == 5) ? 1 : 0);
''', '  const bool IdrPicFlag = nal_unit_type == 5;\n')))
SPS = 'src/h264_sps_parser.cc'
ref('scaling-resize', (SPS, body('bool H264SpsDataParser::SpsDataState::scaling_list(', '''
bool H264SpsDataParser::SpsDataState::scaling_list(
    BitBuffer* bit_buffer, uint32_t i, std::vector<uint32_t>& scalingList,
    uint32_t sizeOfScalingList,
    std::vector<uint32_t>& useDefaultScalingMatrixFlag) noexcept {
  int32_t last = 8;
  int32_t next = 8;
  uint32_t j = 0;
  while (j < sizeOfScalingList) {
    if (next != 0) {
      if (!bit_buffer->ReadSignedExponentialGolomb(delta_scale)) {
        return false;
      }
      if (!(kScalingDeltaMin <= delta_scale &&
            delta_scale <= kScalingDeltaMax)) {
        return false;
      }
      next = (last + delta_scale + 256) % 256;
      if (useDefaultScalingMatrixFlag.size() <= i) {
        useDefaultScalingMatrixFlag.resize(i + 1, 0);
      }
      useDefaultScalingMatrixFlag[i] = (j == 0 && next == 0) ? 1 : 0;
    }
    if (scalingList.size() <= j) {
      scalingList.resize(j + 1);
    }
    if (next != 0) {
      last = next;
    }
    scalingList[j] = last;
    ++j;
  }
  return true;
}''')))
ref('sps-loop', (SPS, lambda s: s))
PPS = 'src/h264_pps_parser.cc'
ref('pps-lambda', (PPS, lambda s: s.replace('''  // weighted_pred_flag  u(1)
''', '''  auto read_flag = [bit_buffer](uint32_t* flag) -> bool {
    return bit_buffer->ReadBits(1, *flag);
  };

  // weighted_pred_flag  u(1)
''', 1)), (PPS, lambda s: re.sub(r'if \(!bit_buffer->ReadBits\(1, \(pps->(\w+)\)\)\)', r'if (!read_flag(&pps->\1))', s) if False else s.replace('if (!bit_buffer->ReadBits(1, (pps->weighted_pred_flag)))', 'if (!read_flag(&pps->weighted_pred_flag))')
          .replace('if (!bit_buffer->ReadBits(1, (pps->constrained_intra_pred_flag)))', 'if (!read_flag(&pps->constrained_intra_pred_flag))')))
ref('pps-switch', (PPS, lambda s: re.sub(r'    if \(pps->slice_group_map_type == 0\) \{(.*?)\n    \} else if \(pps->slice_group_map_type == 2\) \{(.*?)\n    \} else if \(\(pps->slice_group_map_type == 3\).*?5\)\) \{(.*?)\n    \} else if \(pps->slice_group_map_type == 6\) \{(.*?)\n    \}\n  \}\n', r'''    switch (pps->slice_group_map_type) {
      case 0: {\1
        break;
      }
      case 2: {\2
        break;
      }
      case 3:
      case 4:
      case 5: {\3
        break;
      }
      case 6: {\4
        break;
      }
      default:
        break;
    }
  }
''', s, count=1, flags=re.S)))
ref('pps-range', (PPS, lambda s: s.replace('namespace h264nal {\n', '''namespace h264nal {

namespace {
template <typename T>
bool InRange(T value, T low, T high) {
  return !(value < low) && !(high < value);
}
}  // namespace
''', 1).replace('''  if (pps->num_ref_idx_l0_default_active_minus1 <
          kNumRefIdxL0DefaultActiveMinus1Min ||
      pps->num_ref_idx_l0_default_active_minus1 >
          kNumRefIdxL0DefaultActiveMinus1Max) {''', '''  if (!InRange<uint32_t>(pps->num_ref_idx_l0_default_active_minus1, 0u, 31u)) {''')))
VUI = 'src/h264_vui_parameters_parser.cc'
ref('vui-split', (VUI, lambda s: s.replace('''  if (vui->nal_hrd_parameters_present_flag ||
      vui->vcl_hrd_parameters_present_flag) {
    // low_delay''', '''  const bool any_hrd =
      vui->nal_hrd_parameters != nullptr || vui->vcl_hrd_parameters != nullptr;
  if (any_hrd) {
    // low_delay''')),
    (VUI, lambda s: re.sub(r'  if \(vui->bitstream_restriction_flag\) \{(.*?)\n  \}\n\n  return vui;', r'''  if (!vui->bitstream_restriction_flag) {
    return vui;
  }
\1

  return vui;''', s, count=1, flags=re.S)))
NUH = 'src/h264_nal_unit_header_parser.cc'
SHISE = 'src/h264_slice_header_in_scalable_extension_parser.cc'


def main():
    names = [a for a in sys.argv[1:] if not a.startswith('--')]
    for name, edits in R:
        if names and not any(n in name for n in names):
            continue
        sync()
        ch = False
        for f, fn in edits:
            p = os.path.join(WT, f)
            s = open(p).read()
            try:
                t = fn(s)
            except Exception as e:
                print(name, 'EDIT FAILED', repr(e)[:200])
                continue
            ch |= t != s
            open(p, 'w').write(t)
        if not ch:
            print(name, 'NO CHANGE'); continue
        if '--nobuild' not in sys.argv:
            if not build():
                print(name, 'DOES NOT BUILD'); continue
            t = tests()
            if t:
                print(name, 'TESTS FAIL', t); continue
        r = subprocess.run('cd %s && VERIF_REPO=%s python3 sa/checkall.py' % (VERIF, WT), shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        print('%-20s rc %d %s' % (name, r.returncode, r.stdout.strip()[-1500:]))
    '--keep' in sys.argv or sync()


if __name__ == '__main__':
    main()
