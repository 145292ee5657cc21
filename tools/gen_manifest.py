"""Write MANIFEST.json from the registry and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.dont_write_bytecode = True
from sa.registry import REGISTRY, TECHNIQUE, TEXT, NOTE, NOT_APPLICABLE
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
TECH = 'static analysis: abstract interpretation of the source (trace partitioning, affine constraints, loop generalisation)'
checks = []
for p in ids:
    if p not in REGISTRY or p in NOT_APPLICABLE: continue
    checks.append({
        'property': p, 'quick_cmd': f'python3 -B -m sa.main {p}', 'thorough_cmd': f'VERIF_TIER=thorough python3 -B -m sa.main {p}',
        'technique': TECHNIQUE.get(p, TECH), 'level': 'other',
        'level_note': NOTE.get(p, '') + ' Obligations the analysis cannot decide are counted as undecided in the evidence and never reported as violations. Trusted: the analyser, its models of the phamt trie and of builtins, and the representation invariant of receivers.'})
na = [{'property': p, 'reason': NOT_APPLICABLE.get(p, 'no check is built for it')} for p in ids if p not in REGISTRY or p in NOT_APPLICABLE]
json.dump({'version': 1, 'setup_cmd': 'python3 -B -m sa.selftest', 'checks': checks, 'not_applicable': na,
           'notes': 'Every check parses /repo at run time; nothing of /repo is imported or run.'}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
