"""Writes DESIGN.md (python3 tools/design.py): the texts below, with the bounds
taken from the check modules and the planted bugs from /verif/seeded."""
import ast
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

HEAD = open(os.path.join(HERE, 'tools', 'design_head.md')).read()
TAIL = open(os.path.join(HERE, 'tools', 'design_tail.md')).read()
NOTES = {}
pid = None
for line in open(os.path.join(HERE, 'tools', 'design_notes.md')):
    if line.startswith('# '):
        pid = line[2:].strip()
        NOTES[pid] = ''
    else:
        NOTES[pid] += line


def constants(path):
    out = {}
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            if node.targets[0].id in ('RULE', 'CASES', 'ASSUMPTIONS', 'MIN_EVENTS'):
                out[node.targets[0].id] = ast.literal_eval(node.value)
    return out


def fill(s, indent=''):
    import textwrap
    return textwrap.fill(' '.join(s.split()), 88, subsequent_indent=indent,
                         break_long_words=False, break_on_hyphens=False)


bugs = {}
for f in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f))
    m['id'] = os.path.basename(os.path.dirname(f))
    bugs.setdefault(m['property'], []).append(m)
first = {}
for line in open(os.path.join(HERE, 'tools', 'design_first.txt')):
    a, _, b = line.strip().partition(' ')
    if a:
        first[a] = b

out = [HEAD.rstrip(), '', '## The properties, one by one', '']
for line in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(line)
    pid = p['id']
    c = constants(os.path.join(HERE, 'vf', 'checks', pid.lower() + '.py'))
    out += ['### %s %s' % (pid, p['title']), '']
    for par in NOTES[pid].strip().split('\n\n'):
        out += [fill(par), '']
    out.append(fill('*Case:* ' + c['RULE'] + '.'))
    out.append('')
    out.append(fill('*Bounds:* %d cases quick, %d thorough, drawn from the seed. The run '
                    'is inconclusive unless the monitors saw at least: %s.'
                    % (c['CASES']['quick'], c['CASES']['thorough'],
                       ', '.join('%d %s' % (v, k) for k, v in c['MIN_EVENTS'].items()))))
    out.append('')
    if c.get('ASSUMPTIONS'):
        out.append(fill('*Assumed:* ' + ' '.join(a.rstrip('.') + '.' for a in c['ASSUMPTIONS'])))
        out.append('')

out += ['## Planted bugs', '',
        'Each is in /verif/seeded, was confirmed to pass the stable tests and to fail its',
        'demonstration, and was then run against the check of its property. "Missed at',
        'first" tells what the check had to learn; all are caught now unless noted.', '']
out += ['| bug | what it breaks | what it needs | first run |', '| --- | --- | --- | --- |']
esc = lambda s: ' '.join(s.split()).replace('|', '\\|')
for pid in sorted(bugs):
    for m in bugs[pid]:
        out.append('| %s | %s | %s | %s |' % (m['id'], esc(m['what_it_breaks']),
                                              esc(m['needs']), first.get(m['id'], 'caught')))
out += ['', '## Defects found and repaired', '',
        'Each was shown against the real code, and repaired with a `fix:` commit in /repo;',
        'the check of the property reports it again if the commit is reverted.', '']
kf = json.load(open(os.path.join(HERE, 'known_findings.json')))
for f in kf['fixed']:
    out.append('* ' + f.replace('fixed: property=', ''))
out += ['', 'Recorded without repair: %s.' % (', '.join(map(str, kf['findings'])) or 'none'), '']
out += [TAIL.rstrip(), '']
open(os.path.join(HERE, 'DESIGN.md'), 'w').write('\n'.join(out))
print(len('\n'.join(out).splitlines()), 'lines')
