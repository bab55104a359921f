#!/usr/bin/env python3
"""writes MANIFEST.json"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BITS = 'abstract interpretation of the compiled-source AST (clang libTooling facts) in a bit-provenance domain'
PYAI = 'abstract interpretation of the generator\'s Python syntax trees (constant propagation with opaque inputs, trace-partitioned; nothing is imported or run)'
CHECKS = {
 'P01': (BITS + '; accessor composed with encoder/decoder, compared with a frozen VITA 49.2 layout table', 'all accessors of the fixed-layout structures, all values; trusts the layout table, clang front end and interpreter transfer functions'),
 'P02': (BITS + '; non-interference of each writer with every other subfield', 'all writers, all values of the parameter type, all object states'),
 'P03': (BITS + '; indicator words against frozen VITA 49.2 indicator tables and against each other', 'all indicator readers and writers'),
 'P04': (BITS + '; extents, wire identity, accessor restoration and definite initialisation of every fixed-size codec', 'all fixed-size structures, all contents'),
 'P05': (BITS + ' with definite sequence lengths plus affine extents for symbolic lengths', 'every list structure: enumerated small element counts with symbolic elements; the affine extent for all counts where the loops summarise'),
 'P06': ('abstract scaling domain over the same facts (integer width, signedness and power-of-two factor of each conversion)', 'scaling of both directions of every real-valued subfield; not the rounding error itself'),
 'P08': (PYAI + ' and of the clang enum facts; both against frozen VITA 49.2 code tables and each other', 'every enum of the model and of the library, every member'),
 'P09': (PYAI + '; width, position and non-overlap of every packed subfield of every model structure, including user-defined trailers, discrete I/O and stream ids', 'all model structures; user-defined ones over enumerated width combinations'),
 'P10': (PYAI + '; literal tables against frozen VITA 49.2 code points, then each literal through the section constructors', 'every literal of every table, the class of all other strings, every section that takes a literal'),
 'P11': (PYAI + '; effect set of every section option, order independence, refusal of everything else', 'every registered section, every key, every form of value from enumerated classes, all pairs of keys; text, unknown keys and foreign sections'),
 'P12': (PYAI + '; points-to: disjointness of what is reachable from two definitions and from program state, and no effect of one on another', 'every section in every option, documents with several packets, the back end\'s copies and views'),
 'P13': (PYAI + '; the acknowledgement built for each control packet compared with it field by field', 'every indicator field in each presence state, every acknowledge mode combination'),
 'P14': (PYAI + ', and taint over the Python and template syntax trees; effects and information flow of main()', 'command lines, output directories, packet and file names from enumerated classes; all Python functions and template nodes for the taint pass'),
 'P15': (PYAI + '; exception flow: main() with exceptions injected at every library effect and raising function, malformed documents, sections and command lines', 'every library effect and (first and last entry of) every raising function the runs reach; every section key with wrong forms; all handlers'),
 'P16': ('type checking of everything the repository\'s own generator emits for an enumerated family of specifications, plus declared-but-undefined members over the typed syntax tree', 'every field alone and together, required and optional, in every packet kind; prologue, trailer, identifier, acknowledgement, transport and project forms; not every combination of fields'),
 'P17': (BITS + ' over the classes the repository\'s own generator emits; the offsets of every present field after construction, each mutation and decoding', 'an enumerated family of specifications (every field alone and all together, each packet kind), every presence state reached by setting and clearing in both orders, symbolic values; CIF 7 attributes excluded'),
 'P18': (BITS + ' over the generated classes; presence words, packet bytes and declared length compared after every mutation', 'as P17; operation orders enumerated, lengths of sequences enumerated'),
 'P19': (BITS + ' over the generated classes; writer and reader bit by bit against the encoding of the field, generated user-defined words against the declaration order', 'as P17; all values'),
 'P20': (BITS + ' over the generated classes; match interpreted with everything the definition leaves open symbolic, and with each fixed bit inverted', 'as P17; every value of the open bits at once, one inverted fixed bit at a time'),
 'P21': (BITS + ' over the generated classes; extent of every access to received bytes in identification, decoding and the readers', 'as P17; every shorter length, declared lengths around the real one, announced fields, counts and indicator words beyond the data; field contents from a few fills'),
 'P23': (BITS + ' over the generated classes; warnings, errors, indicator words and flags after every report/clear operation', 'an enumerated family of controls asking for warnings and/or errors over every combination of indicator words; every field alone, subsets of up to four, every operation on each'),
 'P07': (BITS + '; gated readers, writers and resetters against their own enable bits', 'all gated indicators of the library'),
}
FLOW = 'path-enumerating abstract interpretation of the class bodies (clang libTooling facts) with the library calls as events, '
CHECKS.update({
 'P24': (FLOW + 'then lockset, race, wait/notify and lock-order rules over the recorded accesses', 'every reachable abstract state of the client, every public operation, delivery and worker iteration, every outcome of the NATS calls; queues of up to a few messages, loops of up to a few rounds'),
 'P25': (FLOW + 'then a typestate (ownership) analysis of every handle over the reachable object states', 'as P24; a delivery already running while its subscription is destroyed is outside the model'),
 'P26': (FLOW + 'then a typestate (ownership) analysis of every descriptor and the flow of results and arguments', 'every reachable descriptor state of the UDP and TCP classes for both address families, every operation, success and failure of every system call'),
 'P22': (FLOW + 'over the controllees the repository\'s own generator emits; the handlers called and packets sent on each path against what the received packet requests', 'an enumerated family of specifications; every request combination, outcome of receiving, identification, decoding and sending, two receives per run; handlers and packet classes opaque'),
 'P27': (FLOW + 'over send_packet and the command functions of the controllers the repository\'s own generator emits; provenance of every reply and of everything sent', 'an enumerated family of specifications; every request combination, outcome and length of sending and receiving, identification and decoding; replies are not correlated by message identifier'),
 'P29': (FLOW + 'over generated controllers and controllees: a typestate analysis of their threads, the set-up calls and the data/context paths', 'an enumerated family of specifications; all sequences of up to four starts and stops, every outcome of set-up, receiving and sending'),
 'P28': (FLOW + 'then value-flow rules: what reaches the library call and what comes back', 'as P24'),
})
NA = {
 'N01': 'numerical error of a rounding conversion over all reals is a value-level property; static analysis here decides the scale factors (P06) but not the half-step bound',
 'N02': 'timing: depends on scheduling and network behaviour at run time, no static rule can bound it',
 'N03': 'value-level string round trip through loops over text; no sound static argument in reach decides it for all spellings',
}


def main():
    m = {'version': 1,
         'setup_cmd': 'python3 -c "import sys; sys.path.insert(0, \'engine\'); import common; common.ensure_factdump()"',
         'checks': [], 'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items()]}
    for p, (tech, note) in sorted(CHECKS.items()):
        m['checks'].append({'property': p, 'quick_cmd': 'python3 check.py %s quick' % p,
                            'thorough_cmd': 'python3 check.py %s thorough' % p,
                            'technique': 'static analysis: ' + tech, 'level': 'other', 'level_note': note})
    props = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
    for p in props:
        if p not in CHECKS and p not in NA:
            m['not_applicable'].append({'property': p, 'reason': 'check under construction'})
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)


main()
