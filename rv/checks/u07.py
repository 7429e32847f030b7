from .common import *

WORDS = ['alpha', 'beta', 'gamma', 'delta', 'eps', 'zeta', 'handlers', 'x1', '_y']
HEAD = 'class H(object):\n    def __init__(self, *args, **kw):\n        self.seen = [list(args), sorted(kw.items())]\n\n\ndef F(*args, **kw):\n    return H(*args, **kw)\n\n\n'


class CHECK(Check):
    id = 'U07'
    n = 500
    timeout = 60
    rule = ('a random tree of packages, modules, plain directories and broken modules on disk, whose attributes, submodules, handlers and directories are then asked for by names that exist, do not exist or are malformed; results are '
            'compared with the tree; distinct by tree and questions')
    required = ('attribute', 'no attribute', 'no module', 'malformed', 'broken module', 'handler', 'handler arguments', 'submodule', 'no submodule', 'package submodule', 'plain directory', 'dotted submodule', 'not a package', 'fake package',
                'package directory', 'module directory', 'no directory', 'several paths', 'attribute changed', 'submodule added')
    assumptions = ['names with slashes are not judged']

    def cases(self):
        rng = self.rng
        for i in range(self.n * self.scale):
            root = 'rvtree%d' % (rng.randrange(10 ** 9))
            tree, mods, packs, plain, broken = [], {}, {}, [], []

            def module(name):
                attrs = dict((w.upper(), rng.choice([1, 'text', None, True])) for w in rng.sample(WORDS, 2))
                mods[name] = attrs
                return HEAD + ''.join('%s = %r\n' % kv for kv in sorted(attrs.items()))

            def package(name, path, depth):
                packs[name] = path
                tree.append([path + '/__init__.py', module(name)])
                for w in rng.sample(WORDS, rng.randint(1, 4)):
                    k = rng.random()
                    n = name + '.' + w
                    if k < 0.3 and depth < 3:
                        package(n, path + '/' + w, depth + 1)
                    elif k < 0.4:
                        tree.append([path + '/' + w, None])
                        plain.append(n)
                    elif k < 0.5:
                        tree.append([path + '/' + w + '.py', rng.choice(['import no_such_module_at_all\n', 'raise ImportError("no")\n', 'from os import no_such_name\n'])])
                        broken.append(n)
                    else:
                        tree.append([path + '/' + w + '.py', module(n)])
                        packs.setdefault(None, {})[n] = path
            package(root, root, 0)
            files = packs.pop(None, {})
            stps, want, tags = [], [], []
            for _ in range(rng.randint(4, 14)):
                k = rng.random()
                m = rng.choice(sorted(mods))
                if k < 0.06:
                    # what a name stands for is what it is now, not what it was when it was asked for before
                    a = rng.choice(sorted(mods[m]))
                    if rng.random() < 0.7:
                        stps.append(['import', m + '.' + a])
                        want.append(('is', mods[m][a]))
                    mods[m][a] = rng.choice([2, 'other', False])
                    stps += [['assign', m + '.' + a, mods[m][a]], ['import', m + '.' + a]]
                    want += [('is', None), ('is', mods[m][a])]
                    tags.append('attribute changed')
                elif k < 0.1:
                    p = rng.choice(sorted(packs))
                    w = rng.choice(['late', 'later'])
                    full = p + '.' + w
                    if full in mods:
                        continue
                    if rng.random() < 0.7:
                        stps.append(['has', p, w])
                        want.append(('has', False, full))
                    stps += [['add', full, packs[p] + '/' + w + '.py', module(full)], ['has', p, w]]
                    files[full] = packs[p]
                    want += [('is', None), ('has', True, full)]
                    tags.append('submodule added')
                elif k < 0.24:
                    a = rng.choice(sorted(mods[m]))
                    stps.append(['import', m + '.' + a])
                    want.append(('is', mods[m][a]))
                    tags.append('attribute')
                elif k < 0.42:
                    q = rng.choice([(m + '.NOPE', 'no attribute'), (m + '.nope.X', 'no module'), (root + 'x.X', 'no module'), (rng.choice(['', root, 'X']), 'malformed'), ('.' + m + '.X', 'malformed'), (m + '..X', 'malformed'),
                                    ('..X', 'malformed'), ('.X', 'malformed'), ('.', 'malformed'), (m.replace('.', '..', 1) + '..H', 'malformed'), (m + '.', 'no attribute'), (' ' + m + '.H', 'no module'), (m + '.H.seen', 'no module')]
                                   + [(x + '.X', 'broken module') for x in broken])
                    stps.append([rng.choice(['import', 'handler']), q[0], [], {}])
                    want.append(('fails', 'ImportError'))
                    tags.append(q[1])
                elif k < 0.55:
                    args = [rng.choice([1, None, 'a', [1, 2]]) for _ in range(rng.randint(0, 3))]
                    kw = dict((w, rng.choice([1, 'b'])) for w in rng.sample(['p', 'q', 'r'], rng.randint(0, 2)))
                    stps.append(['handler', m + '.' + rng.choice('HF'), args, kw])
                    want.append(('is', ['H', [args, [tuple(x) for x in sorted(kw.items())]]]))
                    tags += ['handler'] + ['handler arguments'] * bool(args or kw)
                elif k < 0.85:
                    if rng.random() < 0.15:
                        name = rng.choice(['', root])
                        stps.append(['has fake', name, 'alpha'])
                        want.append(('is', [False, []]))
                        tags.append('fake package')
                        continue
                    p = rng.choice(sorted(packs)) if rng.random() < 0.85 else m
                    children = [x for x in list(mods) + broken + plain if x.startswith(p + '.')]
                    if children and rng.random() < 0.7:
                        sub = rng.choice(children)[len(p) + 1:]
                    else:
                        sub = rng.choice(WORDS + ['nope', '', '.', 'a..b', '.alpha', 'alpha.', 'H', 'os', root, 'nope.nope', '__init__x'])
                    full = p + '.' + sub
                    there = p in packs and full in list(mods) + broken and not any('.'.join(full.split('.')[:j]) in broken for j in range(1, full.count('.') + 1))
                    stps.append(['has', p, sub])
                    # looking for a module does not import it
                    want.append(('has', there, full))
                    tags.append('not a package' if p not in packs else 'dotted submodule' if there and '.' in sub else 'package submodule' if full in packs else 'submodule' if there else 'plain directory' if full in plain else 'no submodule')
                elif k < 0.93:
                    stps.append(['dir', m])
                    want.append(('is', packs.get(m, files.get(m))))
                    tags.append('package directory' if m in packs else 'module directory')
                else:
                    paths = rng.choice([None, [], ['/a/b'], ['/a', '/b'], ['rel']])
                    fn = rng.choice(['-', None, '/c/d.py', '/c/e/__init__.py'])
                    stps.append(['dir fake', '', paths, fn])
                    tags.append('several paths' if paths and len(paths) > 1 else 'no directory' if not paths and fn in ('-', None) else 'fake')
                    want.append(('is', paths[0]) if paths and len(paths) == 1 else ('fails', 'ValueError') if fn in ('-', None) else ('is', fn.rsplit('/', 1)[0]))
            job = {'op': 'modules', 'root': root, 'tree': tree, 'steps': [s[:2] + ([[self.arg(v) for v in s[2]], dict((a, self.arg(v)) for a, v in s[3].items())] if s[0] == 'handler' else s[2:] if s[0] in ('dir fake', 'assign', 'add') else [b(v) for v in s[2:]] if s[0] != 'import' else []) for s in stps]}
            yield Case(job, {'want': want}, tags)

    @staticmethod
    def arg(v):
        return b(v) if isinstance(v, str) else v

    def judge(self, c, res):
        ps = []
        for st, w, got in zip(c.job['steps'], c.x['want'], steps(res)):
            if w[0] == 'fails':
                ok = is_exc(got, w[1])
            elif w[0] == 'has':
                ok = isinstance(got, list) and got[0] is w[1] and w[2] not in got[1]
            else:
                ok = got == norm(w[1]) and isinstance(got, bool) == isinstance(w[1], bool)
            if not ok:
                ps.append(Problem('%r gives %r, expected %r' % (st, got, w), st[0]))
        return ps
