"""Writes MANIFEST.json from properties.jsonl and the drivers present in mc/."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {}
exec(open(os.path.join(V, 'tools', 'notes.py')).read())
checks, na = [], []
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l)['id']
    if os.path.exists(os.path.join(V, 'mc', p.lower() + '.cpp')):
        t, n = NOTE[p]
        checks.append({'property': p, 'quick_cmd': './check.sh %s quick' % p, 'thorough_cmd': './check.sh %s thorough' % p,
                       'evidence_file': 'evidence/%s.json' % p, 'technique': t, 'level': 'model_checking', 'level_note': n})
    else:
        na.append({'property': p, 'reason': 'model checking applies, the check is not finished yet'})
json.dump({'version': 1, 'setup_cmd': 'python3 mc/build.py all',
           'hooks': {'guard': 'MJS_VERIF', 'enable': 'mc/build.py compiles the sources of /repo/src with -DMJS_VERIF (and AddressSanitizer) and links them with a driver mc/cNN.cpp',
                     'source_commits': ['7884280']},
           'checks': checks, 'not_applicable': na,
           'notes': 'All checks run mc/run.py, which builds from /repo, explores the bounded space of the property exhaustively on the real code and writes evidence/<id>.json. See DESIGN.md.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
