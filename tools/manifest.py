"""Writes MANIFEST.json from the table of properties."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props_table import PROPS
NOTE = ('TLC enumerates sessions of API calls from the specification (bounds: term pools and families in spec/Gen.tla, seeded random clients in spec/Client.tla), the real library built '
        'from the working tree replays them, and TLC checks every recorded call against the contract of its transition in spec/Tsym.tla. Exhaustive within the families, sampled beyond. '
        'Trusted: the driver that records what the API reports, TLC, the interval arithmetic in java/RealIv.java. Values are compared at sample points (exactly modulo a prime, or by real enclosures).')
checks = []
for p, t in sorted(PROPS.items()):
    if not t['families'] and not t.get('random'):
        continue
    checks.append(dict(property=p, quick_cmd='python3 run.py check ' + p, thorough_cmd='python3 run.py check %s --thorough' % p, evidence_file='evidence/%s.json' % p,
                       technique=t.get('technique', 'TLA+ specification: TLC-generated sessions replayed in the library, recorded traces validated by TLC'), level='model_checking', level_note=NOTE))
na = [dict(property=p, reason='not built yet') for p, t in sorted(PROPS.items()) if not t['families'] and not t.get('random')]
json.dump(dict(version=1, setup_cmd='python3 run.py setup', checks=checks, not_applicable=na,
               notes='No hooks: the checks need no changes in /repo. Repairs of genuine defects are separate fix: commits, listed in KNOWN_FINDINGS.txt.'), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
