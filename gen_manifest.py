"""writes MANIFEST.json from vx/registry.py"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'vx'))
import registry as r
m = {'version': 1,
     'setup_cmd': 'cd harness && cargo build --release --offline --quiet --target-dir target/par',
     'hooks': {'guard': 'none', 'enable': 'no hooks are needed: the checks read /repo/src and use its public functions', 'source_commits': []},
     'not_applicable': [],
     'notes': r.NOTES,
     'checks': [{'property': p, 'quick_cmd': 'python3 check.py %s' % p, 'thorough_cmd': 'python3 check.py %s thorough' % p,
                 'technique': r.TECHNIQUE[p], 'level': r.LEVEL[p], 'level_note': r.NOTE[p]} for p in r.ALL]}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
