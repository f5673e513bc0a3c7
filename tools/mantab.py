AI = 'abstract interpretation of LLVM IR in lock step with a syntax specification'
LOCK = ('All paths of the parse functions are covered, with loops run to a fixpoint; a finding is raised only on paths analysed without loss of precision. '
        'Trusted: clang\'s lowering, the container models, the transcription of the standard\'s tables. ')
T = {
    'C01': (AI, LOCK + 'Decides order, coding, width, condition and count of each read and the value of each field at return.'),
    'C02': (AI, LOCK + 'Decides order, coding, width, condition and count of each read and the value of each field at return.'),
    'C03': (AI, LOCK + 'Decides that no return of an object is reachable with an element outside its range.'),
    'C04': (AI, LOCK + 'Decides that no failure return is reachable while every element so far is legal.'),
    'C05': (AI, LOCK + 'Decides that no return of an object is reachable after a failed read or nested parse.'),
    'C06': ('null/bounds obligations in the abstract interpretation of LLVM IR', LOCK + 'Decides dereferences and element accesses in the parse functions.'),
    'C07': ('interval and difference-bound obligations on LLVM IR arithmetic', LOCK + 'Decides signed overflow, division and shifts in the parse functions.'),
    'C08': (AI, LOCK + 'Decides that a path needing unsupported syntax reports it and fails.'),
    'C09': ('contract checking of LLVM IR by abstract interpretation (bit-sliced values, affine loop summaries)', 'Every bit offset and width is covered by a symbolic buffer; each result bit is shown to be one named input bit. Trusted: clang\'s lowering. Non-symmetric codes: for 111 numbers of values (all up to 33, both sides of each power of two, the ends), values symbolic.'),
    'C10': (AI + '; contracts for lookups', LOCK + 'Decides the dispatch table, arguments passed, parameter-set map updates and lookups.'),
    'C11': (AI + '; call-graph rule for unit boundaries', LOCK + 'Decides packet kinds, fields and failure handling against RFC 6184. One known finding: units of an aggregation packet are not delimited by their size.'),
    'C12': ('contract checking of LLVM IR by abstract interpretation with a finite window abstraction of the byte buffer', 'The loop is explored to a fixpoint over all buffer lengths and contents (reduced states at the loop head). Entry points are matched argument by argument. Trusted: clang\'s lowering, the container models.'),
    'C13': ('contract checking of LLVM IR by abstract interpretation with a finite window abstraction of the byte buffer', 'Framing loops are explored to a fixpoint over all buffer lengths and contents. A start code in the last three bytes (with no byte after it) is not an entry, as in the code the library inherits. Trusted: clang\'s lowering, the container models.'),
    'C14': ('contract checking of LLVM IR by abstract interpretation', 'All 32 NAL unit types and the rest, all chroma formats and field modes; sizes and offsets symbolic up to 65535. The frame rate is compared as an exact ratio; rounding is not considered.'),
    'C15': ('abstract interpretation of LLVM IR with an automaton over the text written', 'All paths of the fdump functions from a symbolic structure; labels, groups, values, list positions and presence conditions are matched with the members and the syntax tables. Trusted: clang\'s lowering, the models of stdio and of the containers.'),
    'C16': ('effect analysis over LLVM IR and the call graph; store obligations in abstract interpretation', 'Whole library. Static storage, outside calls and writes through pointers to const are decided by rules over all instructions (flow-insensitive); writes to parameter sets at every store of the abstract interpretation of the parsers. Trusted: clang\'s lowering and debug information.'),
    'C17': ('loop progress (ranking) analysis in abstract interpretation of LLVM IR', 'Every loop iteration of every analysed path: an iteration that consumes no input must change something its exit tests read, and a counter that runs without consumption must stay below 2^20; every container sizing must be bounded. Absolute time and quadratic work inside the container library are not considered.'),
    'C18': ('abstract interpretation of LLVM IR (scenario per option, library results symbolic)', 'main() and ReadFile() on every path, for each option and each pair of opposite options, with symbolic outcomes of the library and file calls; at most three units per file and three chunks of standard input.'),
    'C19': ('contract checking of LLVM IR by abstract interpretation (bit-sliced values)', 'Every bit offset and width from 0 to 66 with a symbolic value and buffer; Exp-Golomb codes for all values (by length class); non-symmetric codes for 111 numbers of values (all up to 33, both sides of each power of two, the ends), values symbolic. Trusted: clang\'s lowering.'),
}
NA = {}
