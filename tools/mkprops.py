#!/usr/bin/env python3
"""Writes properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = []


def P(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {'files': files.split(), 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe:
        a['observe_at'] = observe
    a['hook_needed'] = None
    assert len(title) <= 80, title
    out.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a})


S = 'src/'
PARAM = 'src/h264_sps_parser.cc src/h264_pps_parser.cc src/h264_vui_parameters_parser.cc src/h264_hrd_parameters_parser.cc src/h264_subset_sps_parser.cc src/h264_sps_extension_parser.cc src/h264_sps_svc_extension_parser.cc'
SLICE = 'src/h264_nal_unit_header_parser.cc src/h264_nal_unit_header_svc_extension_parser.cc src/h264_slice_header_parser.cc src/h264_slice_header_in_scalable_extension_parser.cc src/h264_ref_pic_list_modification_parser.cc src/h264_dec_ref_pic_marking_parser.cc src/h264_pred_weight_table_parser.cc src/h264_prefix_nal_unit_parser.cc src/h264_slice_layer_without_partitioning_rbsp_parser.cc src/h264_slice_layer_extension_rbsp_parser.cc'

P('C01', 'Parameter sets are decoded exactly as the standard lays them out',
  'For every byte string, parsing an SPS, SPS extension, subset SPS, SVC SPS extension, PPS, VUI or HRD structure consumes the syntax elements of the H.264 tables in order, each with its own coding and bit width, exactly when its presence condition holds and exactly as often as its count says. '
  'When a structure is returned, every field holds the value decoded for the element it is named after, lists hold their elements in coding order, and elements that are absent hold their default or inferred value.',
  ['inputs'], 'all byte strings handed to the parameter-set parsers, hence all combinations of flags, counts and values in them',
  'The unit tests parse about a dozen recorded parameter sets; they reach few of the flag combinations (scaling lists, slice groups, VCL HRD, 4:4:4, extensions) and compare only some fields.',
  PARAM, [('sequence of bit reads per structure', 'Parse* functions taking a bit reader'), ('scaling list syntax', 'scaling_list in SPS and PPS'), ('derived bit widths', 'getSliceGroupIdLen and friends')],
  observe=['fields of the returned state objects'])
P('C02', 'NAL headers, slice headers and slice data prefixes follow the syntax tables',
  'For every byte string and every set of active parameter sets, parsing a NAL unit header, its SVC extension, a slice header, an SVC slice header, reference list modification, prediction weights, reference marking, a prefix NAL unit or a slice layer consumes exactly the elements of the H.264 tables, with the widths and conditions that the referenced parameter sets imply. '
  'When a structure is returned, every field holds the value decoded, inherited from the referenced parameter set, or inferred for it.',
  ['inputs', 'histories'], 'all byte strings, all NAL unit types and reference indicators, and all contents of the parameter sets a slice can refer to',
  'The tests use a few recorded slices against one or two parameter sets; most slice types, slice-group maps, picture-order types, SVC and weighting combinations never occur.',
  SLICE, [('sequence of bit reads per structure', 'Parse* functions taking a bit reader'), ('parameter set lookup', 'slice header parsers'), ('derived bit widths', 'getFrameNumLen, getPicOrderCntLsbLen, getSliceGroupChangeCycleLen')],
  observe=['fields of the returned state objects'])
P('C03', 'Every accepted structure has its fields within their legal ranges',
  'Whenever a parser returns a structure, each element for which the library documents a legal range lies in it, and the cross-field restrictions (cropping leaves a picture, referenced parameter sets exist and are complete) hold. '
  'Out-of-range values always lead to a failed parse, never to a structure.',
  ['inputs'], 'all byte strings and parser states',
  'Each range has two ends and each element sits behind its own conditions; the tests probe a handful of out-of-range values.',
  PARAM + ' ' + SLICE + ' include/h264_common.h', [('range checks after each read', 'Parse* functions'), ('range constants', 'k*Min / k*Max constants')])
P('C04', 'Legal structures are never rejected',
  'A parser reports failure only if the input ends early, an element is outside its legal range, a referenced parameter set is missing, or the syntax needs a structure the library declares unsupported. '
  'No legal combination of flags and values within the supported syntax is refused.',
  ['inputs'], 'all byte strings that are prefixes of a legal structure',
  'Only recorded legal streams are tested; an over-strict check on an untested value or condition passes all of them.',
  PARAM + ' ' + SLICE, [('range checks and failure returns', 'Parse* functions')])
P('C05', 'A structure is returned only if all of it was read',
  'If the input ends anywhere inside a structure, or any nested structure fails to parse, the parser of the enclosing structure returns no object. '
  'No caller can ever see a structure that mixes decoded fields with fields whose read failed.',
  ['inputs', 'fault_sequences'], 'every truncation point of every input, and every failure of a nested parse',
  'There is one failure point per bit of each structure; the tests truncate a few recorded buffers at a few places.',
  PARAM + ' ' + SLICE, [('result of every read is checked', 'Parse* functions'), ('result of every nested parse is checked', 'Parse* functions')])
P('C06', 'Parsing arbitrary bytes never touches memory it does not own',
  'For every input buffer and parser state no parsing function dereferences a null or missing object, reads or writes a list or buffer outside its bounds, or uses an object after it was released.',
  ['inputs', 'histories'], 'all byte strings, all sequences of NAL units before them',
  'Tests and fuzzers sample inputs; a lookup of a missing parameter set or an index one past the end needs a specific combination.',
  PARAM + ' ' + SLICE, [('null checks after lookups and nested parses', 'Parse* functions'), ('bounds of list accesses', 'Parse* functions')])
P('C07', 'Decoding arithmetic is defined for every input',
  'For every input the parsers perform no signed overflow, no division by zero, no shift by a negative or too large amount, and never abort the process.',
  ['inputs'], 'all byte strings and parser states',
  'The offending values are single points in 32-bit ranges that are only reachable behind other conditions.',
  PARAM + ' ' + SLICE, [('range checks before arithmetic', 'Parse* functions and their helpers')])
P('C08', 'Unsupported syntax is reported and fails the parse',
  'Whenever decoding reaches a syntax structure the library does not implement, it counts and reports that structure and the enclosing parse fails. '
  'The count starts at zero, grows by one for each report and is zero again after a reset. '
  'It never continues as if the structure were absent, because everything after it would be misread.',
  ['inputs'], 'all inputs whose flags or types call for an unimplemented structure',
  'Such streams (MVC, 3D-AVC, SVC base picture marking, ...) hardly occur in the test data.',
  SLICE + ' src/h264_subset_sps_parser.cc src/h264_common.cc', [('report_unimplemented call and failure return', 'Parse* functions')])
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'mkprops2.py')).read()) if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'mkprops2.py')) else None
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in sorted(out, key=lambda p: p['id']):
        f.write(json.dumps(p) + '\n')
