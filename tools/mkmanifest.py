#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks and the texts below."""
import json, os, re
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')

SEARCH = 'explicit-state search over real archives: every operation sequence up to a depth, each state checked against a model'
PRODUCT = 'bounded exhaustive state-space enumeration of the real code against an independent model'
FAULTS = 'exhaustive fault enumeration on the real code (every fault point of every scenario) against a state predicate'

T = {
 'C01': (PRODUCT, 'Every point of a bounded product of sizes, chunk sizes and options; holds for that product only.'),
 'C02': (PRODUCT, 'Every pair of a dense square of sizes and chunk sizes and of boundary values up to 2**64, in exact integer arithmetic.'),
 'C03': (PRODUCT + ' (parser of the documented format)', 'Every byte of every archive written for the product is accounted for by a parser written from the README; trusts blosc.compress as the reference for chunk contents.'),
 'C04': (PRODUCT + ' (writer of the documented format)', 'Archives are made by an independent writer, so reader and writer cannot agree on a mistake.'),
 'C05': (PRODUCT, 'All single bytes and all boundary pairs of bytes of the 32-byte headers, all boundary field combinations.'),
 'C06': (SEARCH, 'All histories up to depth 3 (thorough 4) plus long spines; transitions are the real code, so no conformance gap.'),
 'C07': (SEARCH, 'Every refusable operation in every state reached by up to two (three) operations.'),
 'C08': (FAULTS + ': every damaged byte', 'Single-byte damage under several masks at every byte that a checksum covers.'),
 'C09': (FAULTS + ': every truncation', 'Every prefix of every listed archive (near boundaries only for the largest).'),
 'C10': (FAULTS + ': every damaged byte, followed by every short history of appends', 'Single-byte damage or truncation, histories of two appends.'),
 'C11': (FAULTS + ': every crash point and torn write of packing', 'Crash points at library and kernel write granularity; writes are assumed to persist in order.'),
 'C12': (FAULTS + ': every crash point and torn write of an append, and of the append after it', 'As C11; one known finding (see known_findings.txt).'),
 'C13': (FAULTS + ': every failing file operation, and short transfers', 'Each single operation, and all from one on, of every scenario.'),
 'C14': (PRODUCT, 'Product of dtypes, shapes, layouts, chunk sizes and targets.'),
 'C15': (PRODUCT + ', with a monitor on every write into the result array', 'All chunk lists of up to three sizes around what the declared array needs; writes are checked by a stand-in that does not perform those out of bounds.'),
 'C16': (SEARCH, 'Every rewrite sequence up to the depth; every value, codec, level, checksum next to every size boundary.'),
 'C17': ('explicit-state search over operation histories in one process, compared with each operation in a fresh process', 'All pairs (thorough: triples) of an alphabet of over sixty operations, with long tails.'),
 'C18': ('stateless model checking of the real code: every schedule up to a preemption bound under a controlled scheduler', 'One preemption at every line, two at outer calls, messages included; Blosc calls are atomic.'),
 'C19': ('explicit-state search over directories with the real command as transition relation and a model of it as oracle', 'All command sequences of length two (three) from eight initial directories.'),
 'C20': (FAULTS + ': every failing situation of the command', 'In-process main() for the bulk, real processes for a part.'),
 'C21': (PRODUCT + ' (printed report parsed back and compared with an independent parse)', 'Every field of the info report and every size and count printed when packing, unpacking and appending.'),
 'C22': ('explicit-state search of the log module and differential enumeration of all operations over the verbosity levels', 'The operations of C17 and C19, a bounded option space and odd arguments at every level.'),
 'C23': ('explicit-state search over chains of sources and sinks, each step checked against a model', 'All chains of two (three) steps over three compressed and five plain kinds.'),
 'C24': (PRODUCT + ' (writer of the older metadata form)', 'All dtype descriptions up to three fields and nesting five.'),
 'C25': (PRODUCT + ' (exact rational arithmetic)', 'All short size strings, all sizes around unit boundaries.'),
 'C26': (SEARCH, 'Reservations up to 3 (5) searched exhaustively, larger ones along spines, the calculation over all boundary values.'),
 'C27': (PRODUCT + ' (model of a mapping, explicit-state search over assignments)', 'All sequences of three (four) operations on each kind of object, values and copies compared with dicts.'),
 'C29': (FAULTS + ': an exception at every line executed, followed by further operations', 'Interruptions between lines of bloscpack; quick: every source line first and last time it is executed and the first lines of each call, thorough: every executed line.'),
 'C30': ('enumeration of all schedules of an operation and an environment that changes its input file between two of its file operations', 'One change (thorough: two) before every file operation; every announced size against every available size up to a bound.'),
 'C31': (PRODUCT, 'Every function, choice of optional arguments and split into positional and keyword arguments.'),
 'C32': ('exhaustive enumeration of configurations x operations of the real code, one process each, against a reference process', 'The configurations listed, singly (thorough: pairs); 1500 operations and refused calls in each.'),
 'C33': ('explicit-state exploration of the interleavings of a recorded writer and the real reader, up to a number of switches', 'Up to 4000 (thorough: 40000) schedules per pair of writer and reader; archives of some hundred bytes.'),
 'C34': ('explicit enumeration of malformed archives, each operation on each of them in a watched process', 'Three archives of some hundred bytes; powers of two, that minus one and the largest number per field, pairs of fields by fewer values; 5 s of processor time, 200 MB.'),
 'C28': ('explicit enumeration of operations on instrumented file objects, every read and write monitored', 'Reads, writes and live memory for archives of up to some hundred chunks.'),
}

def main():
    props = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        f = os.path.join(HERE, 'checks', p + '.py')
        if os.path.exists(f):
            level = re.search(r"^LEVEL = '(\w+)'", open(f).read(), re.M).group(1)
            tech, note = T[p]
            checks.append({'property': p, 'quick_cmd': './run.sh %s --tier quick' % p, 'thorough_cmd': './run.sh %s --tier thorough' % p,
                           'evidence_file': 'evidence/%s.json' % p, 'technique': 'model checking: ' + tech, 'level': level, 'level_note': note})
        else:
            na.append({'property': p, 'reason': 'no check has been built yet'})
    m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
         'notes': 'No hooks: the checks import /repo/bloscpack as it is (MC_REPO selects another tree for experiments). '
                  'Replay: ./run.sh Cxx --replay FILE. See DESIGN.md.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fp:
        json.dump(m, fp, indent=1)
        fp.write('\n')
    print(len(checks), 'checks', len(na), 'not claimed')

main()
