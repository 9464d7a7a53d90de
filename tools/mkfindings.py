"""known_findings.txt: the repairs (from /repo's history) and the findings left as they are (tools/findings.json)."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = json.load(open(os.path.join(ROOT, 'tools', 'fixprops.json')))
out = ['# fixed: property=<id> <commit> <what failed>: repaired in /repo; suppresses nothing',
       '# known: {...}: a genuine defect left as it is, by the exact event and clause of the check that reports it']
for l in subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], text=True).split('\n'):
    if ' fix: ' in l:
        h, s = l.split(' fix: ', 1)
        for p in PROPS[h]:
            out.append('fixed: property=%s %s %s' % (p, h, 'did not hold: ' + s))
for d in json.load(open(os.path.join(ROOT, 'tools', 'findings.json'))):
    out.append('known: ' + json.dumps(d, sort_keys=True))
open(os.path.join(ROOT, 'known_findings.txt'), 'w').write('\n'.join(out) + '\n')
