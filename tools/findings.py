"""Write known-findings.json (list of open findings and fixed defects)."""
import json, os
F = []
def fixed(prop, commit, what):
    F.append(dict(property=prop, status='fixed', entry='fixed: property=%s %s %s'
        % (prop, commit, what)))
def known(prop, harness, label, id, what):
    F.append(dict(property=prop, status='open', harness=harness, label=label,
        id=id, what=what))
exec(open(os.path.join(os.path.dirname(__file__), 'findings.txt')).read())
with open(os.path.join(os.path.dirname(__file__), '..',
        'known-findings.json'), 'w') as f:
    json.dump(F, f, indent=1)
    f.write('\n')
