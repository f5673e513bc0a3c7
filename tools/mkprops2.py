P('C09', 'The bit reader returns exactly the bits asked for and never reads past the end',
  'For every buffer, position and width, a successful read or peek yields the addressed bits most significant first, a read moves the position by exactly the bits it returned, and Exp-Golomb and non-symmetric reads decode the documented codes. '
  'A request for more bits than remain fails, and a failed request leaves the position where it was. '
  'Alignment, remaining-bit and trailing-bit helpers agree with that position, and computing a checksum leaves it unchanged.',
  ['inputs', 'histories'], 'all buffers, all byte and bit positions, all widths from 0 to 64, both in debug and NDEBUG builds',
  'There are eight bit offsets times 64 widths times all byte values, plus all truncation points; the tests try a few dozen.',
  'src/rtc_common.cc include/rtc_common.h src/h264_common.cc', [('plain reads', 'BitBuffer::PeekBits, ReadBits, ReadUInt*'), ('Exp-Golomb', 'BitBuffer::ReadExponentialGolomb, ReadSignedExponentialGolomb, ReadNonSymmetric'), ('position', 'BitBuffer::ConsumeBits, Seek, GetCurrentOffset, RemainingBitCount'), ('trailing bits', 'more_rbsp_data, rbsp_trailing_bits, byte_aligned, get_current_offset')],
  state=[('position', 'byte and bit offset of the next bit', 'BitBuffer')])
P('C10', 'Each NAL unit type gets its own parser and updates the right parameter set',
  'For every NAL unit the payload is decoded by the parser of its nal_unit_type with the header fields it depends on, and types the library does not decode yield an empty payload rather than a failure. '
  'A parameter set that parses becomes the one stored under its own identifier, replacing an older one; nothing else ever changes the stored parameter sets, and a set that fails to parse changes nothing. '
  'Lookups return exactly what is stored, IsPayloadParsed() tells whether the payload of that type is present, and the unit records its header, checksum (if asked for) and parsed length.',
  ['inputs', 'histories'], 'all 32 NAL unit types, all header contents, all histories of parameter sets',
  'Tests feed a handful of NAL unit types, rarely resend a parameter set with the same identifier, and never combine failures with later lookups.',
  'src/h264_nal_unit_payload_parser.cc src/h264_nal_unit_parser.cc src/h264_bitstream_parser_state.cc src/h264_nal_unit_header_parser.cc', [('dispatch on nal_unit_type', 'ParseNalUnitPayload'), ('parameter set store', 'ParseNalUnitPayload, GetSps, GetPps, GetSubsetSps'), ('assembly', 'ParseNalUnit')],
  state=[('sps, pps, subset_sps', 'last parsed parameter set per identifier', 'H264BitstreamParserState')])
P('C11', 'RTP packets are split as RFC 6184 prescribes',
  'For every RTP payload, types 1 to 23 are parsed as a single NAL unit, type 24 as a STAP-A aggregation and type 28 as an FU-A fragment, with nothing else parsed for other types. '
  'A STAP-A lists one size, header and payload per aggregated unit, in order, and is refused if a unit claims more bytes than the packet has left; an FU-A records its start, end and type fields and decodes the payload of the reconstructed NAL unit only in the starting fragment. '
  'Any failed part fails the packet.',
  ['inputs'], 'all RTP payloads and parser states',
  'The tests hold one packet of each kind; sizes that exceed the packet, fragments in the middle, and truncated packets are a few samples out of many.',
  'src/h264_rtp_parser.cc src/h264_rtp_single_parser.cc src/h264_rtp_stapa_parser.cc src/h264_rtp_fua_parser.cc', [('packet kind', 'ParseRtp'), ('aggregated units', 'ParseRtpStapA'), ('fragment header', 'ParseRtpFuA')])
P('C12', 'Emulation prevention bytes are removed exactly once before parsing',
  'For every byte string, unescaping drops exactly the 03 bytes that follow two zero bytes of the input and keeps every other byte in order, at every position including the very end, without reading outside the buffer. '
  'Every parser that takes bytes unescapes them exactly once, parses exactly the unescaped bytes with the arguments it was given, and returns what that parse produced.',
  ['inputs'], 'all byte strings of all lengths; all 26 entry points that take bytes',
  'Which bytes are dropped depends on all earlier ones and on how many bytes remain; the tests try about five strings, none with several escapes in a row, at the end, or in long buffers.',
  'src/h264_common.cc src/h264_sps_parser.cc src/h264_pps_parser.cc src/h264_nal_unit_parser.cc src/h264_slice_header_parser.cc src/h264_rtp_parser.cc', [('removal of emulation prevention bytes', 'UnescapeRbsp'), ('entry points taking bytes', 'Parse*(const uint8_t*, size_t, ...)')])
P('C13', 'Bitstreams are split into exactly the NAL units they contain',
  'For every buffer, FindNaluIndices() reports one entry per start code that is followed by at least one byte, in order, with the offset of its start code (the four-byte form when a zero precedes), of its payload, and the payload size up to the next start code or the end of the buffer. '
  'With explicit lengths, units follow each other by their big-endian length fields, and splitting stops at the first unit that does not fit in the buffer. '
  'ParseBitstream() and ParseBitstreamNALULength() parse every such unit, in order, against one parser state and the given options, keep exactly those that parse, with the offset and length each has in the buffer, and go on after one that fails.',
  ['inputs', 'histories'], 'all buffers of all lengths, all length-field widths from 0 to 8 bytes, all outcomes of parsing the units',
  'Start codes may sit at any offset, overlap zeros, or touch the end; length fields may be anything up to wrapping the offset. The tests split about six buffers.',
  'src/h264_bitstream_parser.cc', [('start code search', 'FindNaluIndices'), ('length-prefixed units', 'FindNaluIndicesExplicitFraming, ParseBitstreamNALULength, read_nalu_length'), ('unit by unit parsing', 'ParseBitstream, ParseBitstreamNALULength')],
  observe=['NaluIndex entries', 'BitstreamState::nal_units with offset and length'])
P('C14', 'Derived picture values and type classes match the standard',
  'For every parameter set the parser can return, the chroma array type, the chroma subsampling and cropping units, the cropped resolution and the frame rate are those the equations of the standard give; a resolution that would not be positive is reported as an error. '
  'Every NAL unit type is classified as slice, reserved or unspecified exactly as Table 7-1 does, and NAL unit types and profiles are given their own names, unknown values included.',
  ['inputs'], 'all field values of an SPS and VUI, all 32-bit NAL unit types, all profile values',
  'The tests compute the resolution of a few streams, all 4:2:0 and mostly progressive and uncropped; the type tables are sampled.',
  'src/h264_sps_parser.cc src/h264_vui_parameters_parser.cc src/h264_common.cc', [('equations 7-13 to 7-22', 'getChromaArrayType, getSubWidthC, getSubHeightC, getCropUnitX, getCropUnitY, getResolution'), ('equation D-2', 'getFramerate'), ('Table 7-1', 'IsSliceSegment, IsNalUnitTypeReserved, IsNalUnitTypeUnspecified, NalUnitTypeToString, profileTypeToString')])
P('C15', 'Dumps show every element under its name, with its value, when it is there',
  'For every structure the parsers return, each line of its text dump names a member of the structure and shows that member\'s own value, with its sign and in full; lists are shown complete and in order, nested structures under their own name and of the unit\'s own type. '
  'An element is shown when the syntax has it and left out when it has not (the two reference list modification flags and the PPS extension flags are always shown), and offset, length, parsed length, checksum and resolution are shown exactly when asked for. '
  'A dump never dereferences a structure that is absent, or reads past a list.',
  ['inputs'], 'all structures the parsers can return, with every combination of flags and list lengths, and all dump options',
  'No test compares the text of a structure dump with anything, and the command line tool, whose whole output it is, is not run.',
  'src', [('text dumps', '26 fdump functions, fdump_indent_level'), ('options', 'ParsingOptions, H264NalUnitParser::NalUnitState::fdump')])
P('C16', 'Parsing depends only on its arguments and changes only what it makes',
  'The result of every parse, query and dump is a function of its arguments: it does not depend on earlier or concurrent calls, on the clock, the environment or files, and no such call ends the process. '
  'The input bytes and constant arguments are never changed. A parser changes nothing but the structure it returns, the position of the bit reader and, for a parameter set unit, the entry of that set in the parser state; units that refer to stored parameter sets never change, add or remove one, even when a lookup fails. '
  'The only shared variable is an atomic count of unimplemented structures, which no parser reads.',
  ['inputs', 'histories', 'schedules'], 'all functions of the library; all inputs, histories of earlier calls and interleavings of calls on different objects',
  'Tests run one parse after another in one thread and look at the returned structure only: a stale cache, a changed parameter set or a shared buffer shows only in a later or concurrent call.',
  'src', [('shared state', 'unimplemented_count, report_unimplemented'), ('input bytes', 'UnescapeRbsp, FindNaluIndices, BitBuffer'), ('stored parameter sets', 'ParseSliceHeader, ParseSliceHeaderInScalableExtension, ParseNalUnitPayload')])
P('C17', 'Every call ends, with work and memory bounded by the size of its input',
  'For every input each parse, framing, unescaping, checksum and dump call ends. In every loop an iteration either consumes input or moves on through it or through a list, or it is one of a number of iterations that is limited whatever the input says; a read that fails because the data ran out never leaves a loop spinning at the same position. '
  'No list or buffer is given a size that the input merely declares: it is at most proportional to the bytes supplied, or the declared number was checked against its legal range first.',
  ['inputs'], 'all loops and container sizings of the parsers, the bit reader, framing, unescaping and the dumps; all inputs',
  'A loop that spins or an allocation that explodes needs input cut at one particular bit or one absurd count; tests feed well-formed streams, and a fuzzer has to hit the position.',
  'src', [('framing loops', 'H264BitstreamParser::FindNaluIndices, ParseBitstreamNALULength'), ('read loops', 'BitBuffer::ReadExponentialGolomb, NaluChecksum::GetNaluChecksum, rbsp_trailing_bits'), ('list loops', 'H264PpsParser::ParsePps, H264SpsDataParser::ParseSpsData, H264RtpStapAParser::ParseRtpStapA, H264DecRefPicMarkingParser::ParseDecRefPicMarking')])
P('C18', 'The h264nal tool says truthfully what it found and how the parse went',
  'For every file and every combination of options, the exit status of the h264nal tool is 2 if the parse met syntax that is not implemented, otherwise 1 if any NAL unit of the file was dropped (counted for start-code files) or kept with a payload that did not parse, otherwise 0; a file that cannot be read in full, an output that cannot be opened and an invalid option never end with 0. '
  'The whole file is parsed once, split by start codes or by lengths of the width asked for, with exactly the parsing and dump options that the command line selects (the last of two opposite flags wins; --add-contents brings offset and length, --dump-length brings length). '
  'The output goes to the chosen file or stdout and has every unit once, in order: its dump, followed with --add-contents by exactly its bytes; with --dump-length one row per unit with its number, frame number, type, length and first_mb_in_slice, and one row per frame with the bit rate of its slices.',
  ['inputs'], 'every option, every pair of opposite options; all types, outcomes and contents of up to three units, all counts of dropped units and unimplemented structures; all results of the file operations',
  'The tool is never run by the tests: nothing checks its exit status, its options or the file reader.',
  'tools/h264nal.cc src/h264_utils.cc', [('exit status', 'main'), ('options', 'parse_args'), ('reading the file', 'H264Utils::ReadFile, ReadStdinToBuffer'), ('output', 'main: dump_all, dump_length')],
  observe=['exit status', 'text written to the output', 'arguments of the library calls'])
P('C19', 'The bit writer writes exactly the bits the bit reader reads back',
  'For every buffer, position, width from 1 to 64 and value, a successful write puts the low bits of the value at the position, most significant first, moves the position past them and changes no other bit of the buffer; unsigned and signed Exp-Golomb and non-symmetric writes write exactly the code that the corresponding read decodes to the same value, and SizeNonSymmetricBits() gives its length. '
  'A write that does not fit, a width that cannot be written and the values without a code (UINT32_MAX, INT32_MIN) fail, and then neither the buffer nor the position changes. Nothing outside the buffer is ever touched.',
  ['inputs'], 'all buffers, positions, widths and values; both in debug and NDEBUG builds',
  'The writer has no tests at all.',
  'src/rtc_common.cc include/rtc_common.h', [('plain writes', 'BitBufferWriter::WriteBits, WriteUInt8, WriteUInt16, WriteUInt32, WritePartialByte'), ('codes', 'WriteExponentialGolomb, WriteSignedExponentialGolomb, WriteNonSymmetric, SizeNonSymmetricBits, CountBits')],
  observe=['contents of the buffer', 'position', 'result of the write'])
