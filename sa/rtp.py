"""Aggregation packets: after each unit the reader has to be put where the next
one starts, because the payload parsers stop where their syntax ends."""
import models as M
from contract import *

N = 'h264nal::'
FN = N + 'H264RtpStapAParser::ParseRtpStapA'
MOVES = ('BitBuffer::Seek', 'BitBuffer::ConsumeBytes', 'BitBuffer::ConsumeBits', 'BitBuffer::BitBuffer')


class Static:
    """result of a rule decided on the call graph"""

    def __init__(self):
        self.violations, self.undecided, self.stats, self.m = [], [], {'calls': 0, 'functions': 0}, None


def calls(prog, fn):
    fn.parse()
    for i in fn.all_instrs():
        if i.op == 'call' and i.a[0][0] == 'g':
            yield i, i.a[0][1]


def advance(prog):
    o = Static()
    top = find(prog, FN, 'h264nal::BitBuffer*')
    seen, work, moves = {top.name}, [top], []
    while work:
        fn = work.pop()
        o.stats['functions'] += 1
        for i, n in calls(prog, fn):
            o.stats['calls'] += 1
            q = M.strip_templates(prog.dem(n))
            if q.startswith(N) and q[len(N):] in MOVES:
                moves.append(q)
            g = prog.fn.get(n)
            if q.startswith(N) and '::Parse' not in q and '::BitBuffer::' not in q and g is not None and n not in seen:
                seen.add(n)
                work.append(g)
            if q == N + 'H264NalUnitPayloadParser::ParseNalUnitPayload' and 'BitBuffer*' not in prog.dem(n):
                moves.append(q)        # parses the unit from its own bytes
    if not moves:
        at = [i for i, n in calls(prog, top) if 'ParseNalUnitPayload' in n] or list(top.all_instrs())
        file, line = top.mod.loc(at[0].dbg)
        o.violations.append({'cat': 'ADVANCE', 'key': ('stapa',), 'msg': 'the next aggregated unit is looked for where the parser of the previous one stopped, not nal_unit_size bytes after its start', 'file': file, 'line': line,
                             'fn': FN, 'tags': {}, 'imprecise': 0, 'spec': FN})
    return o


def run(prog, tier='quick'):
    c = Checks(prog)
    c.do('ParseRtpStapA unit boundaries', lambda: advance(prog))
    return c


if __name__ == '__main__':
    main(run)
