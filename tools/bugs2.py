import sys
from seedlib import bug
only = sys.argv[1:]
def B(id, *a, **k):
    if not only or id in only: bug(id, *a, **k)

HDR = '''#include "bits.h"
#include <cstring>
#include "h264_bitstream_parser.h"
#include "h264_bitstream_parser_state.h"
#include "h264_nal_unit_parser.h"
#include "h264_nal_unit_payload_parser.h"
#include "h264_slice_header_parser.h"
#include "h264_slice_header_in_scalable_extension_parser.h"
#include "h264_subset_sps_parser.h"
#include "h264_pps_parser.h"
#include "h264_sps_parser.h"
using namespace h264nal;
static Bits spsbits(int id, int profile = 66, int mbs_only = 1) {
  Bits b;
  b.u(8, profile).u(8, 0).u(8, 30).ue(id).ue(0).ue(0).ue(0).ue(1).u(1, 0).ue(9).ue(9).u(1, mbs_only);
  if (!mbs_only) b.u(1, 0);
  b.u(1, 1);
  return b;
}
static std::vector<uint8_t> nal(int hdr, const std::vector<uint8_t>& d) {
  std::vector<uint8_t> o{(uint8_t)hdr};
  o.insert(o.end(), d.begin(), d.end());
  return o;
}
static Bits ppsbits(int id, int sps_id) {
  Bits p;
  p.ue(id).ue(sps_id).u(1, 0).u(1, 0).ue(0).ue(0).ue(0).u(1, 0).u(2, 0).se(0).se(0).se(0).u(1, 0).u(1, 0).u(1, 0);
  return p;
}
'''
# C03: cross-field restriction
B('crop-all-height', 'C03', 'an SPS whose top and bottom cropping together remove exactly the whole height',
  'an SPS that crops its picture away completely is accepted',
  [('src/h264_sps_parser.cc', '''        cropped_height >= FrameHeightInSamplesL) {''', '''        cropped_height > FrameHeightInSamplesL) {''')],
  HDR + '''
int main() {
  for (int bottom = 79; bottom <= 81; ++bottom) {
    Bits b = spsbits(0);  // 160x160, 4:2:0: CropUnitY is 2
    b.u(1, 1).ue(0).ue(0).ue(bottom - 60).ue(60).u(1, 0).trail();
    auto d = b.esc();
    auto s = H264SpsParser::ParseSps(d.data(), d.size());
    CHECK((s != nullptr) == (bottom == 79));
  }
}
''')
# C04: legal value refused
B('qp-delta-chroma-depth', 'C04', 'a slice of a sequence whose luma samples are deeper than its chroma samples, with a large slice_qp_delta',
  'the upper limit of slice_qp_delta follows the chroma bit depth, so legal deltas are refused',
  [('src/h264_slice_header_parser.cc', '''      slice_header->slice_qp_delta >
          (51 + 6 * static_cast<int32_t>(sps_data->bit_depth_luma_minus8))) {''',
    '''      slice_header->slice_qp_delta >
          (51 + 6 * static_cast<int32_t>(sps_data->bit_depth_chroma_minus8))) {''')],
  HDR + '''
int main() {
  H264BitstreamParserState st;
  Bits b;  // High 10, luma 14 bits, chroma 8 bits
  b.u(8, 110).u(8, 0).u(8, 30).ue(0).ue(1).ue(6).ue(0).u(1, 0).u(1, 0);
  b.ue(0).ue(0).ue(0).ue(1).u(1, 0).ue(9).ue(9).u(1, 1).u(1, 1).u(1, 0).u(1, 0).trail();
  auto d = b.esc();
  st.sps[0] = H264SpsParser::ParseSps(d.data(), d.size());
  CHECK(st.sps[0] != nullptr);
  Bits p = ppsbits(0, 0);
  p.trail();
  d = p.esc();
  st.pps[0] = H264PpsParser::ParsePps(d.data(), d.size(), 1);
  CHECK(st.pps[0] != nullptr);
  for (int delta : {0, 51, 60, 87, 88, -87, -88}) {
    Bits s;
    s.ue(0).ue(7).ue(0).u(4, 1).u(4, 2).u(1, 0).se(delta).trail();
    d = s.esc();
    auto h = H264SliceHeaderParser::ParseSliceHeader(d.data(), d.size(), 1, 1, &st);
    CHECK((h != nullptr) == (delta >= -87 && delta <= 87));
  }
}
''')
# C06
B('svc-no-extension', 'C06', 'a coded slice extension that refers to a subset SPS without an SVC extension (a profile other than 83 and 86)',
  'the SVC slice header parser dereferences the missing SVC extension of the subset SPS',
  [('src/h264_slice_header_in_scalable_extension_parser.cc', '''  if (subset_sps_svc_extension == nullptr) {''',
    '''  if (sps_data == nullptr) {''')],
  HDR + '''
int main() {
  H264BitstreamParserState st;
  Bits b = spsbits(0);
  b.u(1, 0).u(1, 0).u(1, 0).trail();
  auto d = b.esc();
  st.subset_sps[0] = H264SubsetSpsParser::ParseSubsetSps(d.data(), d.size());
  CHECK(st.subset_sps[0] != nullptr);
  Bits p = ppsbits(0, 0);
  p.trail();
  d = p.esc();
  st.pps[0] = H264PpsParser::ParsePps(d.data(), d.size(), 1);
  CHECK(st.pps[0] != nullptr);
  Bits s;  // type 20, svc_extension_flag
  s.u(1, 0).u(2, 1).u(5, 20).u(1, 1).u(23, 0x000003);
  s.ue(0).ue(7).ue(0).u(4, 1).u(4, 2).u(1, 0).se(0).u(8, 0x55).trail();
  d = s.esc();
  auto n = H264NalUnitParser::ParseNalUnit(d.data(), d.size(), &st, ParsingOptions());
  CHECK(n == nullptr || n->nal_unit_payload == nullptr || n->nal_unit_payload->slice_layer_extension_rbsp == nullptr);
}
''')
# C07
UB = '''#!/bin/bash
# exit 0: the behaviour is right; nonzero: it is broken
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
r=$PWD
export here d r
for f in src/*.cc; do echo $f; done | xargs -P 8 -I{} bash -c 'g++ -std=c++14 -O0 -c -fsanitize=undefined -fno-sanitize-recover=undefined -DFDUMP_DEFINE -DRTP_DEFINE -Iinclude -Isrc {} -o $d/$(basename {}).o' || exit 2
g++ -std=c++14 -O0 -fsanitize=undefined -DFDUMP_DEFINE -DRTP_DEFINE -Iinclude -Isrc -I"$here" "$here/demo.cc" -o "$d/demo" $d/*.o || exit 2
cd "$d" && timeout 60 ./demo
'''
B('scaling-delta-first-only', 'C07', 'a scaling list whose second or later delta_scale is near the 32-bit limit',
  'delta_scale is range-checked only for the first coefficient, so the sum that follows overflows a signed int',
  [('src/h264_sps_parser.cc', '''      if (delta_scale < kScalingDeltaMin || delta_scale > kScalingDeltaMax) {''',
    '''      if (j == 0 &&
          (delta_scale < kScalingDeltaMin || delta_scale > kScalingDeltaMax)) {''')],
  HDR + '''
int main() {
  Bits b;
  b.u(8, 100).u(8, 0).u(8, 30).ue(0).ue(1).ue(0).ue(0).u(1, 0).u(1, 1);
  b.u(1, 1).se(8).se(2147483647);
  for (int i = 0; i < 14; ++i) b.se(0);
  for (int i = 0; i < 7; ++i) b.u(1, 0);
  b.ue(0).ue(0).ue(0).ue(1).u(1, 0).ue(9).ue(9).u(1, 1).u(1, 1).u(1, 0).u(1, 0).trail();
  auto d = b.esc();
  H264SpsParser::ParseSps(d.data(), d.size());
}
''', sh_demo=UB)
# C08
B('mvc-modification-depth', 'C08', 'a slice header parsed as nal_unit_type 21 (depth or texture view)',
  'the unimplemented ref_pic_list_mvc_modification() of type 21 is neither reported nor fatal: the base structure is read in its place',
  [('src/h264_slice_header_parser.cc', '''  if (slice_header->nal_unit_type == 20 || slice_header->nal_unit_type == 21) {''',
    '''  if (slice_header->nal_unit_type == CODED_SLICE_EXTENSION) {''')],
  HDR + '''
int main() {
  H264BitstreamParserState st;
  Bits b = spsbits(0);
  b.u(1, 0).u(1, 0).trail();
  auto d = b.esc();
  st.sps[0] = H264SpsParser::ParseSps(d.data(), d.size());
  Bits p = ppsbits(0, 0);
  p.trail();
  d = p.esc();
  st.pps[0] = H264PpsParser::ParsePps(d.data(), d.size(), 1);
  CHECK(st.sps[0] != nullptr && st.pps[0] != nullptr);
  Bits s;
  s.ue(0).ue(7).ue(0).u(4, 1).u(4, 2).u(1, 0).se(0).u(8, 0x55).trail();
  d = s.esc();
  uint32_t before = get_unimplemented_count();
  auto h = H264SliceHeaderParser::ParseSliceHeader(d.data(), d.size(), 1, 21, &st);
  CHECK(h == nullptr);
  CHECK(get_unimplemented_count() == before + 1);
}
''')
# C09
B('consume-offset-carry', 'C09', 'a skip of a whole number of bytes from a position inside a byte, after which fewer bits remain than a byte',
  'ConsumeBytes() moves to the next byte boundary instead of by the bits it was asked for',
  [('src/rtc_common.cc', '''  if (byte_count > SIZE_MAX / 8) return false;
  return ConsumeBits(byte_count * 8);''', '''  if (byte_count > byte_count_ - byte_offset_) return false;
  byte_offset_ += byte_count;
  return true;''')],
  '''#include "bits.h"
#include "rtc_common.h"
using namespace h264nal;
int main() {
  const uint8_t d[4] = {0x12, 0x34, 0x56, 0x78};
  for (size_t off = 0; off <= 8; ++off)
    for (size_t n = 0; n <= 5; ++n) {
      BitBuffer b(d, 4);
      CHECK(b.ConsumeBits(off));
      uint64_t before = b.RemainingBitCount();
      bool ok = b.ConsumeBytes(n);
      CHECK(ok == (n * 8 <= before));
      CHECK(b.RemainingBitCount() == before - (ok ? n * 8 : 0));
    }
}
''')
B('trailing-bits-aligned', 'C09', 'rbsp_trailing_bits() called on a byte boundary whose byte is 0x80 with more data behind it',
  'at most seven alignment bits are read by width instead of up to the byte boundary: from an aligned position one bit is left unread',
  [('src/h264_common.cc', '''  while (!byte_aligned(bit_buffer)) {
    // rbsp_alignment_zero_bit  f(1) // equal to 0
    if (!bit_buffer->ReadBits(1, bits_tmp)) {
      return false;
    }
    if (bits_tmp != 0) {
      return false;
    }
  }
  return true;''', '''  uint64_t alignment_bits = bit_buffer->RemainingBitCount() % 8;
  if (alignment_bits == 0) {
    return true;
  }
  // rbsp_alignment_zero_bit  f(1) // equal to 0
  if (!bit_buffer->ReadBits(alignment_bits, bits_tmp)) {
    return false;
  }
  return (bits_tmp & 0x3f) == 0;''')],
  '''#include "bits.h"
#include "h264_common.h"
using namespace h264nal;
int main() {
  for (int off = 0; off < 8; ++off)
    for (int v = 0; v < 256; ++v) {
      uint8_t d[2] = {(uint8_t)v, 0x80};
      BitBuffer b(d, 2);
      b.ConsumeBits(off);
      int rest = v & ((1 << (8 - off)) - 1);
      CHECK(rbsp_trailing_bits(&b) == (rest == 1 << (7 - off)));
      if (rest == 1 << (7 - off)) CHECK(b.RemainingBitCount() == 8);
    }
}
''')
# C10
B('subset-sps-keeps-first', 'C10', 'a stream that sends a second, different subset SPS with the same identifier',
  'an updated subset SPS does not replace the stored one, so later slices are read with the old parameters',
  [('src/h264_nal_unit_payload_parser.cc', '''        bitstream_parser_state->subset_sps[subset_sps_id] =
            nal_unit_payload->subset_sps;''', '''        bitstream_parser_state->subset_sps.emplace(
            subset_sps_id, nal_unit_payload->subset_sps);''')],
  HDR + '''
int main() {
  H264BitstreamParserState st;
  for (int interlaced = 0; interlaced < 2; ++interlaced) {
    Bits b = spsbits(3, 66, !interlaced);
    b.u(1, 0).u(1, 0).u(1, 0).trail();
    auto d = nal(0x6f, b.esc());
    auto n = H264NalUnitParser::ParseNalUnit(d.data(), d.size(), &st, ParsingOptions());
    CHECK(n != nullptr && n->nal_unit_payload->subset_sps != nullptr);
    CHECK(st.subset_sps.size() == 1 && st.subset_sps.count(3));
    CHECK(st.subset_sps[3] == n->nal_unit_payload->subset_sps);
  }
}
''')
B('failed-pps-forgets', 'C10', 'a truncated PPS that arrives after a good one with the same identifier',
  'a PPS that fails to parse replaces the stored one by nothing',
  [('src/h264_nal_unit_payload_parser.cc', '''      if (nal_unit_payload->pps != nullptr) {
        uint32_t pps_id = nal_unit_payload->pps->pic_parameter_set_id;
        bitstream_parser_state->pps[pps_id] = nal_unit_payload->pps;
      }''', '''      uint32_t pps_id = 0;
      if (nal_unit_payload->pps != nullptr) {
        pps_id = nal_unit_payload->pps->pic_parameter_set_id;
      }
      if (nal_unit_payload->pps != nullptr || pps_id != 0) {
        bitstream_parser_state->pps[pps_id] = nal_unit_payload->pps;
      } else {
        bitstream_parser_state->pps.erase(pps_id);
      }''')],
  HDR + '''
int main() {
  H264BitstreamParserState st;
  Bits p = ppsbits(0, 0);
  p.trail();
  auto d = nal(0x68, p.esc());
  auto n = H264NalUnitParser::ParseNalUnit(d.data(), d.size(), &st, ParsingOptions());
  CHECK(n != nullptr && st.pps.count(0) && st.pps[0] != nullptr);
  auto old = st.pps[0];
  n = H264NalUnitParser::ParseNalUnit(d.data(), 2, &st, ParsingOptions());
  CHECK(st.pps.count(0) && st.pps[0] == old);
}
''')
# C11
B('fua-single-fragment', 'C11', 'an FU-A packet whose start and end bits are both set',
  'the payload of a fragment that is both first and last is not decoded',
  [('src/h264_rtp_fua_parser.cc', '''  if (rtp_fua->s_bit == 0) {
    // not''', '''  if (rtp_fua->s_bit == 0 || rtp_fua->e_bit == 1) {
    // not''')],
  HDR + '''#include "h264_rtp_fua_parser.h"
int main() {
  H264BitstreamParserState st;
  for (int e = 0; e < 2; ++e) {
    Bits b = spsbits(2);
    b.u(1, 0).u(1, 0).trail();
    auto d = nal(0x7c, nal(0x87 | (e << 6), b.esc()));
    auto f = H264RtpFuAParser::ParseRtpFuA(d.data(), d.size(), 3, &st);
    CHECK(f != nullptr && f->s_bit == 1 && f->e_bit == (uint32_t)e && f->fu_type == 7);
    CHECK(f->nal_unit_payload != nullptr && f->nal_unit_payload->sps != nullptr);
  }
}
''')
# C12
B('unescape-last', 'C12', 'a unit that ends in 00 00 03 (as a cabac_zero_word does)',
  'an emulation prevention byte that is the last byte of the buffer is kept',
  [('src/h264_common.cc', 'if (length - i >= 3 && data[i] == 0x00', 'if (length - i > 3 && data[i] == 0x00')],
  '''#include "bits.h"
#include "h264_common.h"
using namespace h264nal;
int main() {
  std::vector<uint8_t> in{0x65, 0x80, 0, 0, 3, 0, 0, 3};
  auto out = UnescapeRbsp(in.data(), in.size());
  CHECK(out == (std::vector<uint8_t>{0x65, 0x80, 0, 0, 0, 0}));
}
''')
# C13
B('length-stops-at-bad-unit', 'C13', 'a length-prefixed stream in which a unit that does not parse precedes good ones',
  'ParseBitstreamNALULength() stops at the first unit that does not parse instead of going on after it',
  [('src/h264_bitstream_parser.cc', '''      i += nalu_length;
      continue;''', '''      break;''')],
  HDR + '''
int main() {
  std::vector<uint8_t> s;
  auto add = [&](std::vector<uint8_t> n) {
    s.push_back(0); s.push_back((uint8_t)n.size());
    s.insert(s.end(), n.begin(), n.end());
  };
  Bits p = ppsbits(0, 0);
  p.trail();
  add(nal(0x68, p.esc()));
  add({0x6e, 0x80});  // header extension cut short
  add(nal(0x68, p.esc()));
  auto b = H264BitstreamParser::ParseBitstreamNALULength(s.data(), s.size(), 2, ParsingOptions());
  CHECK(b != nullptr);
  CHECK(b->nal_units.size() == 2);
  CHECK(b->nal_units[1]->nal_unit_payload->pps != nullptr);
}
''')
B('start-code-skip', 'C13', 'a start code whose first zero follows a byte that is not zero, at one of the three phases of the search',
  'FindNaluIndices() steps over a start code when the byte before its zeros is examined as the middle byte of the window',
  [('src/h264_bitstream_parser.cc', '''    if (data[i + 2] > 1) {
      i += 3;''', '''    if (data[i + 2] > 1 || data[i + 1] > 1) {
      i += (data[i + 2] > 1) ? 3 : (i > 2048 ? 3 : 2);''')],
  HDR + '''
int main() {
  for (size_t at = 4; at < 4200; ++at) {
    std::vector<uint8_t> d(at + 8, 0x55);
    d[0] = d[1] = 0; d[2] = 1;
    d[at] = d[at + 1] = 0; d[at + 2] = 1;
    auto v = H264BitstreamParser::FindNaluIndices(d.data(), d.size());
    CHECK(v.size() == 2);
    CHECK(v[1].start_offset == at && v[1].payload_size == 5);
  }
}
''')
# C14
B('crop-unit-field-422', 'C14', 'an interlaced 4:2:2 or 4:4:4 sequence with vertical cropping',
  'CropUnitY of field sequences ignores that only 4:2:0 has two luma rows per chroma row',
  [('src/h264_sps_parser.cc', '''  return SubHeightC * (2 - static_cast<int>(frame_mbs_only_flag));''',
    '''  return (frame_mbs_only_flag || SubHeightC == 2)
             ? SubHeightC * (2 - static_cast<int>(frame_mbs_only_flag))
             : SubHeightC;''')],
  HDR + '''
int main() {
  for (int fmt = 0; fmt < 4; ++fmt)
    for (int only = 0; only < 2; ++only) {
      H264SpsDataParser::SpsDataState s;
      s.chroma_format_idc = fmt;
      s.separate_colour_plane_flag = 0;
      s.frame_mbs_only_flag = only;
      CHECK(s.getCropUnitY() == (fmt == 1 ? 2 : 1) * (2 - only));
    }
}
''')
# C15
B('dump-l1-weights', 'C15', 'the dump of a pred_weight_table of a B slice with 4:0:0 chroma',
  'luma_offset_l1 is shown only together with the chroma lists',
  [('src/h264_pred_weight_table_parser.cc', '''    fdump_indent_level(outfp, indent_level);
    fprintf(outfp, "luma_offset_l1 {");
    for (const int32_t& v : luma_offset_l1) {
      fprintf(outfp, " %i", v);
    }
    fprintf(outfp, " }");

    if (chroma_array_type != 0) {
      fdump''', '''    if (chroma_array_type != 0) {
      fdump_indent_level(outfp, indent_level);
      fprintf(outfp, "luma_offset_l1 {");
      for (const int32_t& v : luma_offset_l1) {
        fprintf(outfp, " %i", v);
      }
      fprintf(outfp, " }");

      fdump''')],
  HDR + '''#include "h264_pred_weight_table_parser.h"
int main() {
  for (int chroma = 0; chroma < 2; ++chroma) {
    Bits b;
    b.ue(0);
    if (chroma) b.ue(0);
    b.u(1, 0);
    if (chroma) b.u(1, 0);
    b.u(1, 1).se(7).se(-9);
    if (chroma) b.u(1, 0);
    b.trail();
    auto d = b.esc();
    auto t = H264PredWeightTableParser::ParsePredWeightTable(d.data(), d.size(), chroma, 1, 0, 0);
    CHECK(t != nullptr);
    char* text = nullptr; size_t n = 0;
    FILE* f = open_memstream(&text, &n);
    t->fdump(f, 0);
    fclose(f);
    CHECK(strstr(text, "luma_weight_l1 { 7 }"));
    CHECK(strstr(text, "luma_offset_l1 { -9 }"));
  }
}
''')
# C16
B('lookup-inserts-sps', 'C16', 'a slice whose PPS refers to an SPS that was never received',
  'the failed lookup of the SPS leaves an empty entry for it in the parser state',
  [('src/h264_slice_header_parser.cc', '''  if (bitstream_parser_state->sps.find(sps_id) ==
      bitstream_parser_state->sps.end()) {''', '''  if (bitstream_parser_state->sps[sps_id] == nullptr) {''')],
  HDR + '''
int main() {
  H264BitstreamParserState st;
  Bits p = ppsbits(0, 5);
  p.trail();
  auto d = p.esc();
  st.pps[0] = H264PpsParser::ParsePps(d.data(), d.size(), 1);
  CHECK(st.pps[0] != nullptr);
  Bits s;
  s.ue(0).ue(7).ue(0).u(4, 1).u(4, 2).u(1, 0).se(0).trail();
  d = s.esc();
  auto h = H264SliceHeaderParser::ParseSliceHeader(d.data(), d.size(), 1, 1, &st);
  CHECK(h == nullptr);
  CHECK(st.sps.empty());
}
''')
B('slice-amends-pps', 'C16', 'a P slice that overrides num_ref_idx_l0_active_minus1, followed by one that does not',
  'the override of one slice is written into the stored PPS and so applies to later slices',
  [('src/h264_slice_header_parser.cc', '''  slice_header->weighted_pred_flag = pps->weighted_pred_flag;
  slice''', '''  if (slice_header->num_ref_idx_active_override_flag &&
      slice_header->slice_type == SliceType::P_ALL) {
    pps->num_ref_idx_l0_default_active_minus1 =
        slice_header->num_ref_idx_l0_active_minus1;
  }
  slice_header->weighted_pred_flag = pps->weighted_pred_flag;
  slice''')],
  HDR + '''
int main() {
  H264BitstreamParserState st;
  Bits b = spsbits(0);
  b.u(1, 0).u(1, 0).trail();
  auto d = b.esc();
  st.sps[0] = H264SpsParser::ParseSps(d.data(), d.size());
  Bits p = ppsbits(0, 0);
  p.trail();
  d = p.esc();
  st.pps[0] = H264PpsParser::ParsePps(d.data(), d.size(), 1);
  CHECK(st.sps[0] != nullptr && st.pps[0] != nullptr);
  for (int over = 1; over >= 0; --over) {
    Bits s;
    s.ue(0).ue(5).ue(0).u(4, 1).u(4, 2).u(1, over);
    if (over) s.ue(4);
    s.u(1, 0).u(1, 0).se(0).trail();
    d = s.esc();
    auto h = H264SliceHeaderParser::ParseSliceHeader(d.data(), d.size(), 1, 1, &st);
    CHECK(h != nullptr);
    CHECK(h->num_ref_idx_l0_active_minus1 == (over ? 4u : 0u));
  }
}
''')
