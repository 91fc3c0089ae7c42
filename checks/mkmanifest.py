#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and the list below."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), 'lib'))
import vlib, importlib.util
spec = importlib.util.spec_from_file_location('checks', os.path.join(HERE, 'checks.py'))
mod = importlib.util.module_from_spec(spec)
spec.loader.exec_module(mod)
props = [json.loads(l) for l in open(os.path.join(vlib.VERIF, 'properties.jsonl'))]
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%H %s'], stdout=subprocess.PIPE, text=True).stdout
hooks = [l.split()[0] for l in log.splitlines() if 'MLRL_VERIF_TRACE' in l]
m = {
    'version': 1,
    'setup_cmd': 'python3 checks/run.py setup',
    'hooks': {'guard': 'MLRL_VERIF_TRACE',
              'enable': "meson setup -Dcpp_args=-DMLRL_VERIF_TRACE (lib/vlib.py builds a mirror of /repo's working tree "
                        "that way); the file to write to is given by the environment variable MLRL_VERIF_TRACE_FILE",
              'source_commits': hooks},
    'checks': [], 'not_applicable': []}
for p in props:
    pid = p['id']
    if pid in mod.CHECKS:
        m['checks'].append({
            'property': pid, 'quick_cmd': 'python3 checks/run.py ' + pid,
            'thorough_cmd': 'VERIF_TIER=thorough python3 checks/run.py ' + pid,
            'evidence_file': 'evidence/%s.json' % pid,
            'technique': 'TLA+ specification checked with TLC; conformance of recorded executions of the real code ('
                         + mod.NOTES[pid][0] + ')',
            'level': 'model_checking', 'level_note': mod.NOTES[pid][1]})
    else:
        m['not_applicable'].append({'property': pid, 'reason': mod.NOT_APPLICABLE.get(pid, 'no check yet')})
json.dump(m, open(os.path.join(vlib.VERIF, 'MANIFEST.json'), 'w'), indent=1)
