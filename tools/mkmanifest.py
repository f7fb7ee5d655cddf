#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 'C01': 'runtime monitoring: panic, abort, hang, allocation and work monitors over hostile inputs, token streams and call histories',
 'C02': 'runtime monitoring: conservation checker over recorded token streams (exhaustive short strings, random text)',
 'C03': 'runtime monitoring: differential oracle against a reference lexer over recorded token streams',
 'C04': 'runtime monitoring: online iterator-contract monitor with a metered character source',
 'C13': 'runtime monitoring: metamorphic oracle (same tokens, different layout) and reference parser',
 'C15': 'runtime monitoring: exactly-once and ordering checker over builder event logs',
 'C16': 'runtime monitoring with fault injection: every builder call made to fail in turn',
 'C17': 'runtime monitoring: differential oracle between builders and wrappers on the same inputs',
 'C18': 'runtime monitoring: converted default AST compared with recorded builder events, canonical form checker',
 'C22': 'runtime monitoring: differential oracle between the iterator and repeated single parses',
 'C23': 'runtime monitoring: metered character source and concatenation oracle',
 'C24': 'runtime monitoring: per-operation consumption monitor against reference operations, look-ahead histories',
 'C25': 'runtime monitoring: metamorphic oracle, backticks against $( )',
 'C26': 'runtime monitoring: round-trip oracle over generated tokens, parameters and positions',
 'C28': 'runtime monitoring: law checker (equality, copies, wrappers) over pairs of parsed trees, against the trees they stand for',
 'C27': 'runtime monitoring: repeated, interleaved and concurrent executions compared; shared ASTs read from several threads',
}
DEF = 'runtime monitoring: recorded builder events and results judged against generated ground truth and a reference parser'
NOTE = 'Held on every execution observed (exhaustive over short token sequences of the vocabulary, sampled beyond); trusts the reference model and generator.'
checks = []
for l in open(os.path.join(root, 'properties.jsonl')):
    p = json.loads(l)
    i = p['id']
    checks.append({
        'property': i, 'quick_cmd': './check.sh ' + i, 'thorough_cmd': 'VERIF_TIER=thorough ./check.sh ' + i,
        'evidence_file': 'evidence/%s.json' % i, 'technique': TECH.get(i, DEF),
        'level': 'fault_enumeration' if i == 'C16' else 'exploration', 'level_note': NOTE})
json.dump({'version': 1, 'setup_cmd': './check.sh build', 'checks': checks, 'not_applicable': []}, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
