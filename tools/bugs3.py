import sys
from seedlib import bug
import re, os
HDR = re.search(r"^HDR = '''(.*?)^'''", open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs2.py")).read(), re.S | re.M).group(1).replace("\\n", "\n")
only = sys.argv[1:]
def B(id, *a, **k):
    if not only or id in only: bug(id, *a, **k)

RTP = HDR.replace('using namespace', '#include "h264_rtp_stapa_parser.h"\n#include "h264_common.h"\n#include <unistd.h>\nusing namespace')
# C17: no progress
B('stapa-odd-tail', 'C17', 'an aggregation packet (STAP-A) with a single byte left after its last unit',
  'the loop over the aggregated units never ends: a failed read of the size is retried without consuming anything',
  [('src/h264_rtp_stapa_parser.cc', '''    if (!bit_buffer->ReadBits(16, nalu_size)) {
      return nullptr;
    }''', '''    if (!bit_buffer->ReadBits(16, nalu_size)) {
      // not a whole size field: skip it
      continue;
    }''')],
  RTP + '''
int main() {
  alarm(20);
  H264BitstreamParserState st;
  std::vector<uint8_t> d{0x18, 0x00};
  CHECK(H264RtpStapAParser::ParseRtpStapA(d.data(), d.size(), &st) == nullptr);
}
''')
B('single-unit-retry', 'C17', 'the single-unit mode (nalu_length_bytes 0) on a unit whose header does not parse',
  'a unit that fails to parse is not skipped, so it is parsed again and again',
  [('src/h264_bitstream_parser.cc', '''      i += nalu_length;
      continue;''', '''      if (nalu_length_bytes > 0) {
        i += nalu_length;
      }
      continue;''')],
  RTP + '''
int main() {
  alarm(20);
  ParsingOptions po;
  std::vector<uint8_t> d{0x09, 0xf0};
  auto b = H264BitstreamParser::ParseBitstreamNALULength(d.data(), d.size(), 0, po);
  CHECK(b != nullptr && b->nal_units.size() == 1);
  std::vector<uint8_t> e{0x6e};  // prefix unit without its extension
  b = H264BitstreamParser::ParseBitstreamNALULength(e.data(), e.size(), 0, po);
  CHECK(b != nullptr && b->nal_units.size() == 0);
}
''')
B('pps-reserve', 'C17', 'a PPS of a few bytes that declares an enormous slice group map',
  'memory is reserved by the declared size of the map before a single entry is read',
  [('src/h264_pps_parser.cc', '''      if (pps->pic_size_in_map_units_minus1 > (kMaxMbPicSize - 1)) {''',
    '''      pps->slice_group_id.reserve(
          static_cast<size_t>(pps->pic_size_in_map_units_minus1) + 1);
      if (pps->pic_size_in_map_units_minus1 > (kMaxMbPicSize - 1)) {''')],
  RTP.replace('#include <unistd.h>', '#include <unistd.h>\n#include <sys/resource.h>') + '''
int main() {
  struct rlimit rl{256u << 20, 256u << 20};
  setrlimit(RLIMIT_AS, &rl);
  Bits p;
  p.ue(0).ue(0).u(1, 0).u(1, 0).ue(1).ue(6).ue(400000000).u(1, 1).trail();
  auto d = p.esc();
  CHECK(H264PpsParser::ParsePps(d.data(), d.size(), 1) == nullptr);
}
''')
# C18: the tool
TOOL = '''#!/bin/bash
# exit 0: the behaviour is right; nonzero: it is broken
tool=$PWD/_build/tools/h264nal
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
cd "$d" || exit 2
%s'''
B('unimpl-needs-unparsed', 'C18', 'length-prefixed framing and a unit that is dropped in its header for an extension that is not implemented',
  'the exit status is 0 where it should be 2: units dropped in this framing are not counted as unparsed',
  [('tools/h264nal.cc', '''  if (unimplemented > 0) {''', '''  if (unimplemented > 0 && unparsed_nal_units > 0) {''')],
  None, sh_demo=TOOL % '''printf '\\x02\\x09\\xf0\\x04\\x75\\x80\\x00\\x01' > a
"$tool" --nalu-length-bytes 1 -i a > out 2> err
[ $? = 2 ] || { echo "exit status is not 2"; exit 1; }
''')
B('bitrate-int', 'C18', 'dump-length of a frame whose bytes times 8 times the frame rate exceed 31 bits',
  'the bitrate column is computed in 32 bits and wraps for big frames at high frame rates',
  [('tools/h264nal.cc', '''            bitrate_bps = static_cast<int64_t>(total_bytes) * 8 *
                          options.frames_per_second;''', '''            bitrate_bps = static_cast<int64_t>(
                static_cast<int>(8u * total_bytes *
                                 options.frames_per_second));''')],
  None, sh_demo=TOOL % '''cp "$OLDPWD/media/601.264" a.264
"$tool" --dump-length --frames-per-second 1 -i a.264 > one
"$tool" --dump-length --frames-per-second 1000000000 -i a.264 > many
sed -n 's/.*,frame,,\\([0-9-]*\\),$/\\1000000000/p' one > want
sed -n 's/.*,frame,,\\([0-9-]*\\),$/\\1/p' many > got
[ -s want ] || exit 2
cmp want got || exit 1
''')
B('stdin-short-chunk', 'C18', 'input from standard input whose length is not a multiple of 4096 bytes and exceeds it',
  'the last, short chunk is taken to be as long as the others, so bytes of the chunk before it follow the end of the input',
  [('src/h264_utils.cc', '''    buffer.insert(buffer.end(), temp, temp + bytes_read);''', '''    // the first chunk gives the granularity
    std::streamsize used = buffer.empty() ? bytes_read : chunk_size;
    buffer.insert(buffer.end(), temp, temp + used);''')],
  None, sh_demo=TOOL % '''for i in 1 2 3 4 5; do cat "$OLDPWD/media/601.264"; done > a.264
"$tool" --dump-length -i a.264 > file; rf=$?
"$tool" --dump-length -i - < a.264 > stdin; rs=$?
[ -s file ] && [ $rf = $rs ] && cmp file stdin || exit 1
''')
B('count-u8', 'C08', 'a stream with a multiple of 256 units that use syntax that is not implemented',
  'the count of unimplemented structures wraps to zero after 256 reports, so the stream looks supported',
  [('src/h264_common.cc', 'std::atomic<uint32_t> unimplemented_count{0};', 'std::atomic<uint8_t> unimplemented_count{0};')],
  RTP + '''
int main() {
  reset_unimplemented_count();
  for (int i = 0; i < 256; ++i) report_unimplemented("x", "y");
  CHECK(get_unimplemented_count() == 256);
}
''')
# C19: the bit writer
B('write-clears-tail', 'C19', 'a write that ends in the middle of its second or a later byte of a buffer that already holds data',
  'the bits after the end of the write are cleared instead of kept',
  [('src/rtc_common.cc', '''    *bytes = WritePartialByte(HighestByte(val), bit_count, *bytes, 0);''', '''    *bytes = HighestByte(val);''')],
  RTP + '''
int main() {
  uint8_t b[3] = {0xff, 0xff, 0xff};
  BitBufferWriter w(b, 3);
  CHECK(w.WriteBits(0, 11));
  CHECK(b[0] == 0 && b[1] == 0x1f && b[2] == 0xff);
}
''')
B('golomb-writes-31', 'C19', 'an Exp-Golomb value of 2^31 or more',
  'the value to encode is counted in 31 bits, so the code of large values is cut',
  [('src/rtc_common.cc', '''  return WriteBits(val_to_encode, CountBits(val_to_encode) * 2 - 1);''', '''  return WriteBits(val_to_encode, CountBits(val_to_encode & 0x7fffffff) * 2 - 1);''')],
  RTP + '''
int main() {
  for (uint32_t v : {0u, 1u, 6u, 0x7ffffffeu, 0x80000004u, 0xfffffffeu}) {
    uint8_t b[9] = {0};
    BitBufferWriter w(b, 9);
    bool ok = w.WriteExponentialGolomb(v);
    CHECK(ok);
    BitBuffer r(b, 9);
    uint32_t x = 0;
    CHECK(r.ReadExponentialGolomb(x) && x == v);
    CHECK(r.RemainingBitCount() == w.RemainingBitCount());
  }
}
''')
B('nonsym-read-boundary', 'C09', 'the first value of a non-symmetric code that takes the longer form',
  'the first long code is taken for a short one',
  [('src/rtc_common.cc', '''  if (val < num_min_bits_values) {
    return true;''', '''  if (val <= num_min_bits_values) {
    return true;''')],
  RTP + '''
int main() {
  for (uint32_t n = 2; n < 40; ++n) {
    for (uint32_t v = 0; v < n; ++v) {
      uint8_t b[4] = {0};
      BitBufferWriter w(b, 4);
      CHECK(w.WriteNonSymmetric(v, n));
      BitBuffer r(b, 4);
      uint32_t x = 99;
      CHECK(r.ReadNonSymmetric(n, x) && x == v);
    }
  }
}
''')
