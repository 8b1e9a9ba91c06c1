"""C31: commands do the same however they are started, and fail openly."""
import json
import os
import random
import re
import shutil
import subprocess
import sys

from .. import cli, gen, xmlgen
from ..engine import REPO, VERIF, require, short

ID = 'C31'
RULE = ('a case is a directory of corpora, some unreadable, and a command with arguments, proper or '
        'not, started in one of several ways; status, output, messages and the whole directory '
        'are observed and compared with those of the command run by itself on a copy; non-trivial: '
        'the command fails, or is started in a process of its own')
CASES = {'quick': 6000, 'thorough': 60000}
MIN_EVENTS = {'succeeds': 700, 'bad input': 700, 'usage': 300, 'help': 100, 'deprecated': 50,
              'no configuration': 120, 'no destination': 250, 'processes': 100, 'xigt.sh': 30,
              'export': 300, 'import': 300, 'sort': 300, 'partition': 300, 'query': 300,
              'validate': 300, 'existing files': 5000}
ASSUMPTIONS = ['The readers of Toolbox and ODIN files are not installed: stand-ins are used.',
               'python3 is the interpreter that has been installed with the repository.']
COMMANDS = ('sort', 'partition', 'query', 'validate', 'export', 'import')
BAD = ('truncated', 'root', 'missing', 'empty', 'directory', 'garbage', 'bad id', 'open tag',
       'late junk')
WAYS = ('main', 'main', 'sh', 'sh-rel', 'script', 'entry')


def setup():
    p = os.path.join(VERIF, 'stubs')
    if p not in sys.path:
        sys.path.insert(0, p)


def generate(rng, i, tier):
    files = {}
    names = ['a.xml', 'b c.xml', 'é.xml', '-x.xml' if rng.random() < .1 else 'd', 'sub/e.xml']
    rng.shuffle(names)
    for n in names[:rng.choice([1, 2, 3])]:
        c = {'k': 'corpus', 'attrs': {}, 'ch': [gen.natural_igt(rng, 'i%s%d' % (len(files), j))
                                                for j in range(rng.choice([0, 1, 2, 3]))]}
        for g in c['ch']:
            g['attrs']['doc-id'] = rng.choice(['x', 'y', 'z1'])
        rng.shuffle(c['ch'])
        files[n] = c
    cmd = rng.choice(COMMANDS)
    r = rng.random()
    kind = ('good' if r < .42 else 'bad input' if r < .7 else 'usage' if r < .82 else
            'help' if r < .86 else 'deprecated' if r < .88 else
            'no configuration' if r < .92 else 'no destination')
    if kind == 'no configuration':
        cmd = rng.choice(['export', 'import'])
    elif kind == 'no destination':
        cmd = rng.choice(['export', 'import', 'partition'])
    bad = None
    if kind == 'bad input':
        n = rng.choice(sorted(files))
        bad = [n, rng.choice(BAD)]
    return {'files': files, 'cmd': cmd, 'kind': kind, 'bad': bad,
            'way': rng.choice(WAYS) if rng.random() < .04 else 'here',
            'seed': rng.randint(0, 10 ** 9)}


def spoil(data, how, rng):
    if how == 'truncated':
        end = data.rindex(b'</xigt-corpus')
        return data[:rng.randint(1, end)].rstrip() if end > 1 else b'<'
    if how == 'root':
        return data.replace(b'xigt-corpus', b'corpus')
    if how == 'empty':
        return b''
    if how == 'garbage':
        return bytes(rng.randrange(256) for _ in range(40))
    if how == 'bad id':
        # before the igts, so that it is met first
        return b'<xigt-corpus><igt id="1"/></xigt-corpus>'
    if how == 'open tag':
        return data.replace(b'</xigt-corpus', b'<x></xigt-corpus')
    if how == 'late junk':
        return data.rstrip() + b'<x/>'
    raise ValueError(how)


ODIN = [{'doc-id': '1', 'line-range': '1 2', 'tag-types': 'L G T', 'block-id': 'b1',
         'lines': [{'num': 1, 'tag': 'L', 'text': 'inu'}]}]


def populate(case, d, rng):
    """The directory that the command is run in"""
    os.makedirs(os.path.join(d, 'sub'))
    for n, spec in sorted(case['files'].items()):
        data, _ = xmlgen.document(spec, rng, encoding='utf-8', plain=True)
        p = os.path.join(d, n)
        if case['bad'] and case['bad'][0] == n:
            if case['bad'][1] == 'missing':
                continue
            if case['bad'][1] == 'directory':
                os.mkdir(p)
                continue
            data = spoil(data, case['bad'][1], rng)
        with open(p, 'wb') as f:
            f.write(data)
    with open(os.path.join(d, 'toolbox.txt'), 'w') as f:
        f.write('\\ref r1\n\\t inu ga\n\\m inu ga\n\\g dog NOM\n\\f The dog\n\n'
                '\\ref r2\n\\t neko\n\\f A cat\n')
    with open(os.path.join(d, 'plain.json'), 'w') as f:
        f.write('{}')
    with open(os.path.join(d, 'toolbox.json'), 'w') as f:
        json.dump({'record_markers': ['\\ref']}, f)
    with open(os.path.join(d, 'broken.json'), 'w') as f:
        f.write('{"a": [1, }')
    with open(os.path.join(d, 'old.out'), 'w') as f:
        f.write('something old\n')
    os.mkdir(os.path.join(d, 'olddir'))
    with open(os.path.join(d, 'olddir', 'x.xml'), 'w') as f:
        f.write('something old\n')


def arguments(case, rng):
    """(command, arguments, destination or None)"""
    cmd, kind = case['cmd'], case['kind']
    fs = sorted(case['files'])
    rng.shuffle(fs)
    out = rng.choice(['new.out', 'new', 'sub/new.out', 'n w', 'old.out'])
    one = case['bad'][0] if case['bad'] else fs[0]
    dash = ['--'] if any(f.startswith('-') for f in fs) else []
    v = rng.choice([[], [], [], ['-v'], ['-vv'], ['--verbose']])
    if kind == 'deprecated':
        return 'process', rng.choice([[], fs, ['-x']]), None
    if kind == 'help':
        return cmd, rng.choice([['-h'], ['--help']]), None
    if kind == 'usage':
        return usage(cmd, fs, rng), None
    if cmd == 'sort':
        ks = rng.choice([[], ['--igt-key', '@doc-id'], ['--igt-key=@doc-id', '--igt-key=@id'],
                         ['--tier-key', '@type'], ['--tier-deps', 'segmentation,alignment'],
                         ['--item-key', 'text()'], ['--igt-key', '@nothing']])
        inp = rng.random() < .5
        return cmd, v + ks + (['--in-place'] if inp else []) + dash + [one], one if inp else None
    if cmd == 'partition':
        out = rng.choice(['new', 'sub/new', 'n w'])
        if kind == 'no destination':
            out = rng.choice(['olddir', 'old.out', 'missing/new', 'sub'])
        return cmd, v + ['--key-path', rng.choice(['@doc-id', 'tier/@type', '@nothing']),
                         *rng.choice([[], ['--default-key', 'zz']])] + dash + [out] + fs, out
    if cmd == 'query':
        a = rng.choice([[], ['-f', '//item/text()'], ['-c', '//item'], ['-u', '//item/text()'],
                        ['-t', 'igt', './/tier/@type'], ['-f', 'igt', '-d', 'x'],
                        ['--find', 'igt/@id', '--count', '//tier', '-d', '{query} {match}']])
        a = a + rng.choice([[], [], ['--basename'], ['-D', '<{filename}>']])
        if '-f' in a and a[a.index('-f') + 1] == 'igt' and '-d' not in a:
            a = a + ['-d', 'x']
        return cmd, v + a + dash + fs, None
    if cmd == 'validate':
        return cmd, rng.choice([[], ['-v'], ['-vv'], ['-q']]) + dash + fs, None
    cfg = [] if kind != 'no configuration' else [
        '-c', rng.choice(['broken.json', 'missing.json', 'sub', 'olddir'])]
    if kind == 'no destination':
        out = rng.choice(['olddir', 'missing/new.xml', 'old.out/x', 'sub'])
    if cmd == 'export':
        if not cfg and rng.random() < .3:
            cfg = ['-c', 'plain.json']
        return cmd, v + ['-i%s' % one if one.startswith('-') else '-i'] + \
            ([] if one.startswith('-') else [one]) + ['-o', out] + \
            rng.choice([[], ['-f', 'latex'], ['--format=latex']]) + cfg, out
    fmt = rng.choice(['toolbox', 'odin'])
    inp = {'toolbox': 'toolbox.txt', 'odin': 'odin.txt'}[fmt]
    if kind == 'bad input':
        inp = rng.choice(['missing.txt', 'missing/x'])
    elif fmt == 'odin':
        inp = 'toolbox.txt'     # a file without blocks
    if fmt == 'toolbox' and not cfg and rng.random() < .7:
        cfg = ['-c', 'toolbox.json']
    return cmd, v + ['-f', fmt, '-i', inp, '-o', out] + cfg, out


def usage(cmd, fs, rng):
    opts = [['--no-such-option'] + fs]
    if cmd == 'sort':
        opts += [[], fs + ['too many'], ['--tier-key', '@a', '--tier-deps', 'b', fs[0]],
                 [fs[0], '--igt-key'], ['--in-place=x', fs[0]]]
    elif cmd == 'partition':
        opts += [[], ['new', '--key-path'], ['--default-key', 'x']]
    elif cmd == 'query':
        opts += [[], ['-d', 'x', '-f', 'igt'] + fs, ['-t', 'igt'], ['-f'], ['-c', '//item']]
    elif cmd == 'validate':
        opts += [['-x'] + fs]
    else:
        opts += [[], ['-i', fs[0] if not fs[0].startswith('-') else 'a'], ['-o', 'new'],
                 ['-i', 'toolbox.txt', '-o', 'new', '-f', 'pdf']]
    return cmd, rng.choice(opts)


def start(case, cmd, args, d, rng):
    """Result of a process"""
    way = case['way']
    env = {k: x for k, x in os.environ.items() if not k.startswith('VF_')}
    env.update(PYTHONIOENCODING='utf-8', PYTHONDONTWRITEBYTECODE='1', PYTHONUNBUFFERED='1',
               PATH=os.path.dirname(sys.executable) + os.pathsep + env.get('PATH', ''),
               PYTHONPATH=os.pathsep.join([REPO, os.path.join(VERIF, 'stubs')]))
    if way.startswith('sh'):
        # the script finds the package beside itself
        home = os.path.join(os.path.dirname(d), rng.choice(['home', 'a b', "it's", '*', 'é']))
        if not os.path.exists(home):
            os.mkdir(home)
            shutil.copytree(os.path.join(REPO, 'xigt'), os.path.join(home, 'xigt'),
                            ignore=shutil.ignore_patterns('__pycache__'))
            shutil.copy(os.path.join(REPO, 'xigt.sh'), home)
        sh = os.path.join(home, 'xigt.sh')
        if way == 'sh-rel':
            sh = os.path.relpath(sh, d)
        # an interpreter in which the package has not been installed
        os.makedirs(os.path.join(os.path.dirname(d), 'bin'), exist_ok=True)
        for name in ('python3', 'python'):
            py = os.path.join(os.path.dirname(d), 'bin', name)
            with open(py, 'w') as f:
                f.write('#!/bin/sh\nexec "%s" -S "$@"\n' % sys.executable)
            os.chmod(py, 0o755)
        env['PATH'] = os.path.dirname(py) + os.pathsep + env['PATH']
        env['PYTHONPATH'] = os.path.join(VERIF, 'stubs')
        argv = ['bash', sh, cmd] + args
    elif way == 'script':
        argv = [sys.executable, '-m', 'xigt.scripts.xigt_' + cmd] + args
    elif way == 'entry':
        argv = [sys.executable, '-c', 'import sys; from xigt.main import main; sys.exit(main())',
                cmd] + args
    else:
        argv = [sys.executable, '-m', 'xigt.main', cmd] + args
    p = subprocess.run(argv, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=d,
                       timeout=90, stdin=subprocess.DEVNULL)
    return cli.Result(p.returncode, p.stdout.decode('utf-8', 'replace'),
                      p.stderr.decode('utf-8', 'replace'))


def here(cmd, args, d):
    try:
        return cli.call(cmd, args, cwd=d)
    except Exception as e:     # the interpreter would end with status 1
        return cli.Result(1, '', 'Traceback: %r' % (e,))


def run(case, mon):
    rng = random.Random(case['seed'])
    tmp = mon.scratch()
    d = os.path.join(tmp, 'work')
    populate(case, d, random.Random(case['seed']))
    cmd, args, *dest = arguments_of(case, rng)
    dest = dest[0] if dest else None
    before = cli.tree(d)
    kind = case['kind']
    mon.trivial = kind == 'good' and case['way'] == 'here'
    what = 'xigt %s %s' % (cmd, ' '.join(args))
    r = here(cmd, args, d)
    judge(case, cmd, args, dest, r, before, cli.tree(d), what, mon, local=True)
    mon.state(cmd, kind, r.code, bool(r.out), case['bad'] and case['bad'][1], len(args))
    if case['way'] != 'here':
        d2 = os.path.join(tmp, 'other', 'work')
        os.makedirs(os.path.dirname(d2))
        populate(case, d2, random.Random(case['seed']))
        r2 = start(case, cmd, args, d2, rng)
        what += ' (%s)' % case['way']
        judge(case, cmd, args, dest, r2, before, cli.tree(d2), what, mon)
        require(r2.code == r.code, '{} ends with {}, not {}: {}', what, r2.code, r.code,
                short(r2.err[-600:], 700))
        if 'Traceback' not in r.err:
            require(same_text(r.out, r2.out), '{} prints {}, not {}', what, short(r2.out, 800),
                    short(r.out, 800))
        require(cli.tree(d2) == cli.tree(d), '{} leaves other files: {}, not {}', what,
                short(cli.tree(d2), 800), short(cli.tree(d), 800))
        mon.hit('processes')
        if case['way'].startswith('sh'):
            mon.hit('xigt.sh')
        if case['way'] in ('main', 'entry') and (kind == 'usage' or rng.random() < .5):
            # with the arguments of one that exists, whose names it resembles
            d3 = os.path.join(tmp, 'third', 'work')
            os.makedirs(os.path.dirname(d3))
            populate(case, d3, random.Random(case['seed']))
            name = rng.choice(['no-such-command', '', cmd[:-1], cmd[:-1], cmd[:3], cmd.upper(),
                               cmd.title(), cmd + 's', cmd + ' ', ' ' + cmd, 'xigt_' + cmd,
                               'xigt-' + cmd, cmd + '.py', '--' + cmd])
            r3 = start(case, name, args, d3, rng)
            require(r3.code == 2 and not r3.out and 'usage' in r3.err.lower() and
                    cli.tree(d3) == before, 'the unknown command {!r} ends with {}: {}', name,
                    r3.code, short(r3.out + r3.err, 500))
            mon.hit('unknown command')


def same_text(a, b):
    def norm(s):
        # the name of the program, and how its arguments are wrapped, differ
        if s.lstrip().lower().startswith('usage'):
            s = re.sub(r'usage: .*?\n\n', '', s, count=1, flags=re.S)
        # addresses of objects
        return re.sub(r' at (0x)?[0-9a-f]{6,}', ' at X', s)
    return norm(a) == norm(b)


def arguments_of(case, rng):
    r = arguments(case, rng)
    if len(r) == 2 and isinstance(r[0], tuple):
        return r[0][0], r[0][1], None
    return r


def judge(case, cmd, args, dest, r, before, after, what, mon, local=False):
    kind = case['kind']
    own = lambda p: dest is not None and (p == dest or p.startswith(dest + '/'))
    mon.hit('existing files', len(before))
    inplace = cmd == 'sort' and '--in-place' in args
    expect_ok = kind in ('good', 'help')
    if kind == 'good' and cmd == 'validate':
        expect_ok = r.code == 0       # decided in C22
    if expect_ok:
        require(r.code == 0, '{} ends with {}: {}', what, r.code, short(r.err[-800:], 900))
        mon.hit('succeeds')
    elif not (kind == 'good' and cmd == 'validate'):
        require(r.code != 0, '{} ends with 0 in spite of {}: {}', what,
                case['bad'] or kind, short(r.out + r.err, 500))
        require(r.err.strip() or (cmd == 'validate' and r.out.strip()) or
                (local and cmd == 'partition'),
                '{} fails without a message', what)
    # nothing that was there is changed, apart from the destination
    for p, x in before.items():
        y = after.get(p, KeyError)
        if inplace and p == dest and kind == 'good':
            require(y is not KeyError, '{} removed {}', what, p)
            continue
        if own(p) and cmd in ('export', 'import') and kind in ('good', 'bad input'):
            continue
        require(y is not KeyError, '{} removed {}', what, p)
        require(y == x, '{} changed {}: {}', what, p, short(y, 300))
    new = [p for p in after if p not in before]
    if kind == 'good' and not inplace:
        require(all(own(p) for p in new), '{} left {}', what, short(new))
        if dest is not None:
            require(dest in after, '{} did not write {}', what, dest)
    elif kind == 'bad input' and cmd in ('partition', 'export', 'import'):
        require(all(own(p) for p in new), '{} left {}', what, short(new))
        if cmd == 'partition':
            require(not [p for p in new if after[p] is not None],
                    '{} wrote {} in spite of an unreadable input', what, short(new))
    else:
        require(not new, '{} left {}', what, short(new))
    if kind in ('usage', 'help'):
        text = r.err if kind == 'usage' else r.out
        require('usage' in text.lower(), '{} shows no usage: {}', what, short(r.out + r.err, 400))
        require(kind == 'help' or (r.code == 2 and not r.out), '{}: status {}, output {}', what,
                r.code, short(r.out, 300))
    mon.hit(kind)
    mon.hit(cmd)
