"""Writes MANIFEST.json from the checks that exist (python3 tools/manifest.py)."""
import ast
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    'C01': 'runtime monitoring: structural diff of snapshots before and after a write/read cycle, independent expat reader',
    'C02': 'runtime monitoring: differential oracle against an independent expat-based reader on generated documents',
    'C03': 'runtime monitoring: structural diff of snapshots across JSON and XML/JSON/XML conversion',
    'C04': 'runtime monitoring under fault injection: truncation at every byte, corruption and failing streams',
    'C05': 'runtime monitoring: trace checker over interleaved, abandoned and repeated iterations of lazily loaded corpora',
    'C06': 'runtime monitoring: online monitor of stream reads, live objects (weak references, gc census) during iteration',
    'C07': 'runtime monitoring: reference-model lockstep over random operation histories',
    'C08': 'runtime monitoring: reference-model lockstep with parent and content observed around rejected operations',
    'C09': 'runtime monitoring: recomputation oracle for indices over random edit histories',
    'C10': 'runtime monitoring: independent expression evaluator as oracle on generated IGTs',
    'C11': 'runtime monitoring: denotational oracle (independent scanner) on generated expressions',
    'C12': 'runtime monitoring: independent relation oracle on generated reference graphs',
    'C13': 'runtime monitoring: walk model and logical-step watchdog on generated, cyclic graphs',
    'C14': 'runtime monitoring: reference sort and logical-step watchdog on generated reference graphs',
    'C15': 'runtime monitoring: independent path evaluator as oracle on generated corpora and paths',
    'C16': 'runtime monitoring: independent attribute and namespace lookup model',
    'C17': 'runtime monitoring: independent metadata lookup and selection model',
    'C18': 'runtime monitoring: mutation of equal copies, structural comparison as oracle',
    'C19': 'runtime monitoring: before/after snapshots, aliasing monitor, thread-schedule perturbation',
    'C20': 'runtime monitoring: conservation checker over the files written, sandboxed output monitor',
    'C21': 'runtime monitoring: stable reference sort as oracle, content conservation',
    'C22': 'runtime monitoring: independent validator as oracle on defect-seeded corpora',
    'C23': 'runtime monitoring: output checker against an independent query evaluation',
    'C24': 'runtime monitoring: LaTeX output parser and alignment checker',
    'C25': 'runtime monitoring: record and token conservation checker with a parser stub',
    'C26': 'runtime monitoring: conservation checker over imported blocks, independent XML reader',
    'C27': 'runtime monitoring: row checker with a recording stub of the skeleton writer',
    'C28': 'runtime monitoring under fault injection: failing serializations at every position, file state monitor',
    'C30': 'runtime monitoring: round-trip oracle with independent parser over parts encoded alone',
    'C31': 'runtime monitoring: differential monitor over ways to start commands, with injected argument and input faults and file-system before/after observation',
    'C32': 'runtime monitoring: cost monitor (logical steps via sys.monitoring, id comparisons via instrumented strings) at growing sizes and over repetition',
    'C33': 'runtime monitoring: resource monitors (open files, weak references, traced memory over thousands of repetitions, process settings, files left) around random programs of operations, some failing',
    'C34': 'runtime monitoring: differential trace monitor; every call, result, exception, warning, output and file of the same workload is recorded in processes under different circumstances and compared',
    'C35': 'runtime monitoring: hand-written validator of the published schema over everything written',
    'C29': 'runtime monitoring: acceptance/rejection oracle over all construction routes',
}
NOTE = {
    'C04': 'Every byte offset of each generated document is a crash point; documents are sampled (seeded).',
    'C06': 'Exact counts of bytes read and objects alive, on sampled documents up to a few thousand IGTs.',
    'C25': 'The external toolbox module is not installed; it is replaced by a stub with the documented interface.',
    'C26': 'The external odintxt module is not installed; it is replaced by a stub with the documented interface.',
    'C27': 'pydelphin is not installed; its make_skeleton is replaced by a recording stub.',
}
DEFAULT = ('Evidence from monitored executions of the real code on seeded, generated workloads; '
           'no exhaustiveness is claimed. Trusts the oracle in /verif/vf and CPython.')


def level(path):
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and getattr(node.targets[0], 'id', None) == 'LEVEL':
            return ast.literal_eval(node.value)
    return 'exploration'


checks, na = [], []
for line in open(os.path.join(HERE, 'properties.jsonl')):
    pid = json.loads(line)['id']
    path = os.path.join(HERE, 'vf', 'checks', pid.lower() + '.py')
    if os.path.exists(path):
        checks.append({'property': pid,
                       'quick_cmd': './run.sh %s quick' % pid,
                       'thorough_cmd': './run.sh %s thorough' % pid,
                       'evidence_file': 'evidence/%s.json' % pid,
                       'technique': TECH[pid], 'level': level(path),
                       'level_note': NOTE.get(pid, '') + (' ' if pid in NOTE else '') + DEFAULT})
    else:
        na.append({'property': pid, 'reason': 'no check has been built yet'})
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump({'version': 1, 'setup_cmd': './run.sh selftest', 'checks': checks,
               'not_applicable': na,
               'notes': 'No hooks in /repo are needed: all monitors attach from outside '
                        '(sys.monitoring, weak references, stream wrappers, stubs).'},
              f, indent=1)
    f.write('\n')
print(len(checks), 'checks,', len(na), 'not claimed')
