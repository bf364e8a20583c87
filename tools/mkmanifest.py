#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of implemented checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'lib'))
import props
T = {
 'codec': 'TLA+ specification (Wire/Values/PacketObject) model checked with TLC; traces recorded from the real code under both crypto back ends validated against it by TLC (TraceCodec)',
}
CODEC = 'Byte-exact conformance of the recorded sessions to the TLA+ specification, whose properties TLC checks exhaustively within small bounds; inputs to the real code are enumerated at the boundaries and sampled elsewhere. Trusts TLC, the MD5 override (checked against the TLA+ definition) and the driver.'
info = getattr(props, 'INFO', {})
checks, na = [], []
for line in open(os.path.join(V, 'properties.jsonl')):
    pid = json.loads(line)['id']
    if pid in props.PROPS:
        t, n = info.get(pid, (T['codec'], CODEC))
        checks.append({'property': pid, 'quick_cmd': 'VERIF_TIER=quick python3 check.py ' + pid, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + pid,
                       'evidence_file': 'evidence/%s.json' % pid, 'technique': t, 'level': 'model_checking', 'level_note': n})
    else:
        na.append({'property': pid, 'reason': 'check not built yet'})
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks: every property is observed through the public API, so /repo carries only fix: commits. Known and fixed findings: KNOWN_FINDINGS.txt.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
