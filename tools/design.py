"""Write DESIGN.md: fixed text plus bounds of all harnesses and planted bugs."""
import json, os, re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def read(*path):
    with open(os.path.join(ROOT, *path)) as f:
        return f.read()

def harnesses(pid):
    """Names, bounds, and documentation of harnesses of property."""
    import ast
    out = []
    for n in ast.parse(read('harness', pid + '.py')).body:
        if not isinstance(n, ast.FunctionDef):
            continue
        for d in n.decorator_list:
            if getattr(getattr(d, 'func', None), 'id', None) == 'harness':
                kw = {}
                for k in d.keywords:
                    try:
                        kw[k.arg] = ast.literal_eval(k.value)
                    except ValueError:
                        pass
                out.append((n.name, kw.get('bounds', ''), kw))
    return out

text = read('tools', 'design.md')
oracle = {}
for block in re.split(r'(?m)^## (?=P\d\d)', read('tools', 'oracles.md'))[1:]:
    pid, rest = block.split('\n', 1)
    oracle[pid.strip()] = rest.strip()

props = [json.loads(line) for line in read('properties.jsonl').splitlines()]
out = [text.rstrip(), '', '## Properties', '']
for p in props:
    out += ['### %s %s' % (p['id'], p['title']), '', oracle[p['id']], '',
        'Files: %s.' % ', '.join('`%s`' % f for f in p['anchors']['files']),
        'Harnesses and bounds:', '']
    for name, bounds, kw in harnesses(p['id']):
        extra = []
        if kw.get('mpi'):
            extra.append('parallel')
        if kw.get('tiers') == ('thorough',):
            extra.append('thorough tier only')
        out.append('* `%s`%s: %s' % (name, ' (%s)' % ', '.join(extra)
            if extra else '', bounds))
    out.append('')

out += ['## Defects found in elphmod', '',
    'Each was found as a replayed counterexample (see `known-findings.json`).',
    '']
for f in json.loads(read('known-findings.json')):
    if f['status'] == 'fixed':
        out.append('* ' + f['entry'])
    else:
        out.append('* open: property=%s harness=%s label="%s" %s' % (
            f['property'], f['harness'], f['label'], f['what']))

out += ['', '## Planted bugs', '',
    'Which check reports which change (run of `tools/catch.sh`); the harness '
    'that found it in parentheses.', '']
catch = json.loads(read('tools', 'catch.json'))
for bug in sorted(os.listdir(os.path.join(ROOT, 'seeded'))):
    meta = json.loads(read('seeded', bug, 'meta.json'))
    out.append('* `%s` (%s): %s. Needs: %s.' % (bug, meta['property'],
        catch.get(bug, 'not run'), meta['needs'].rstrip('.')))
with open(os.path.join(ROOT, 'DESIGN.md'), 'w') as f:
    f.write('\n'.join(out) + '\n')
