import sys
from seedlib import bug
only = sys.argv[1:]
def B(id, *a, **k):
    if not only or id in only: bug(id, *a, **k)

VUI_PRE = '''
  b.u(1, 0).u(1, 0).u(1, 0).u(1, 0).u(1, 0);  // aspect, overscan, video_signal, chroma_loc, timing
'''
HRD = '''
static void hrd(Bits& b) {
  b.ue(0).u(4, 1).u(4, 2).ue(3).ue(4).u(1, 1).u(5, 6).u(5, 7).u(5, 8).u(5, 9);
}
'''
B('vui-low-delay', 'C01', 'a VUI with vcl_hrd_parameters_present_flag set and nal_hrd_parameters_present_flag clear',
  'low_delay_hrd_flag is skipped when only VCL HRD parameters are present, so pic_struct_present_flag and everything after it is read one bit early',
  [('src/h264_vui_parameters_parser.cc', '''  if (vui->nal_hrd_parameters_present_flag ||
      vui->vcl_hrd_parameters_present_flag) {
    // low_delay_hrd_flag  u(1)
    if (''', '''  if (vui->nal_hrd_parameters != nullptr) {
    // low_delay_hrd_flag  u(1)
    if (''')],
  '''#include "bits.h"
#include "h264_vui_parameters_parser.h"
using namespace h264nal;''' + HRD + '''
int main() {
  Bits b;''' + VUI_PRE + '''
  b.u(1, 0).u(1, 1);
  hrd(b);
  b.u(1, 1).u(1, 0).u(1, 0).trail();
  auto d = b.esc();
  auto v = H264VuiParametersParser::ParseVuiParameters(d.data(), d.size());
  CHECK(v != nullptr);
  CHECK(v->low_delay_hrd_flag == 1);
  CHECK(v->pic_struct_present_flag == 0);
  CHECK(v->bitstream_restriction_flag == 0);
}
''')

STATE = '''#include "bits.h"
#include "h264_bitstream_parser_state.h"
#include "h264_slice_header_parser.h"
using namespace h264nal;
static std::shared_ptr<H264SpsParser::SpsState> mksps() {
  Bits b;
  b.u(8, 66).u(8, 0).u(8, 30).ue(0).ue(0).ue(0).ue(0).ue(1).u(1, 0).ue(9).ue(9).u(1, 1).u(1, 1).u(1, 0).u(1, 0).trail();
  auto d = b.esc();
  auto s = H264SpsParser::ParseSps(d.data(), d.size());
  CHECK(s != nullptr);
  return s;
}
'''
B('slice-group-cycle', 'C02', 'a slice that refers to a PPS with slice_group_map_type 5 (explicit evolving wipe) ',
  'slice_group_change_cycle is not read for slice_group_map_type 5',
  [('src/h264_slice_header_parser.cc', '''      (slice_header->slice_group_map_type <= 5)) {
    // slice_group''', '''      (slice_header->slice_group_map_type < 5)) {
    // slice_group''')] if False else
  [('src/h264_slice_header_parser.cc', '''  if ((slice_header->num_slice_groups_minus1 > 0) &&
      (slice_header->slice_group_map_type >= 3) &&
      (slice_header->slice_group_map_type <= 5)) {''', '''  if ((slice_header->num_slice_groups_minus1 > 0) &&
      (slice_header->slice_group_map_type >= 3) &&
      (slice_header->slice_group_map_type < 5)) {''')],
  STATE + '''
int main() {
  H264BitstreamParserState st;
  st.sps[0] = mksps();
  Bits p;
  p.ue(0).ue(0).u(1, 0).u(1, 0).ue(1).ue(5).u(1, 0).ue(0).ue(0).ue(0).u(1, 0).u(2, 0).se(0).se(0).se(0).u(1, 0).u(1, 0).u(1, 0).trail();
  auto pd = p.esc();
  st.pps[0] = H264PpsParser::ParsePps(pd.data(), pd.size(), 1);
  CHECK(st.pps[0] != nullptr);
  Bits s;  // first_mb, I, pps 0, frame_num, poc lsb, marking, qp, cycle (7 bits)
  s.ue(0).ue(7).ue(0).u(4, 1).u(4, 2).u(1, 0).se(0).u(7, 77).trail();
  auto d = s.esc();
  auto h = H264SliceHeaderParser::ParseSliceHeader(d.data(), d.size(), 1, 1, &st);
  CHECK(h != nullptr);
  CHECK(h->slice_group_change_cycle == 77);
}
''')

B('mmco-truncated', 'C05', 'a slice header that ends inside the memory_management_control_operation list, after an operation 3',
  'a failed read of long_term_frame_idx ends the list instead of failing the structure, so a partial structure is returned for a truncated one',
  [('src/h264_dec_ref_pic_marking_parser.cc', '''          // long_term_frame_idx[i]  ue(v)
          if (!bit_buffer->ReadExponentialGolomb(golomb_tmp)) {
            return nullptr;
          }
''', '''          // long_term_frame_idx[i]  ue(v)
          if (!bit_buffer->ReadExponentialGolomb(golomb_tmp)) {
            break;
          }
''')],
  '''#include "bits.h"
#include "h264_dec_ref_pic_marking_parser.h"
using namespace h264nal;
int main() {
  Bits b;  // adaptive, mmco 3, difference 1, then a truncated long_term_frame_idx
  b.u(1, 1).ue(3).ue(1).u(7, 0);
  auto d = b.esc();
  auto s = H264DecRefPicMarkingParser::ParseDecRefPicMarking(d.data(), d.size(), 0);
  CHECK(s == nullptr);
}
''')
