"""Writes MANIFEST.json from properties.jsonl and the check modules."""
import importlib, json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
out = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': [], 'not_applicable': [],
       'notes': 'No hooks in /repo: all monitors sit at the public interface. run.sh ID [quick|thorough]; run.sh --replay FILE.'}
for line in open(os.path.join(H, 'properties.jsonl')):
    p = json.loads(line)
    pid = p['id']
    if not os.path.exists(os.path.join(H, 'mon', 'checks', pid.lower() + '.py')):
        out['not_applicable'].append({'property': pid, 'reason': 'not built yet'})
        continue
    m = importlib.import_module('mon.checks.' + pid.lower())
    out['checks'].append({
        'property': pid, 'quick_cmd': 'bash run.sh %s quick' % pid, 'thorough_cmd': 'bash run.sh %s thorough' % pid,
        'evidence_file': 'evidence/%s.json' % pid,
        'technique': m.TECHNIQUE, 'level': 'exploration', 'level_note': m.NOTE})
json.dump(out, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(H, 'MANIFEST.json'), 'a').write('\n')
