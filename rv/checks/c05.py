from .common import *
from core import u

ITEMS = ['a', 'b', 'a', 1, 2, None, -1, 'x' * 10]


class CHECK(Check):
    id = 'C05'
    n = 1500
    rule = ('histories of reading and mutating operations on immutable lists made in all ways and on copies of them; every result and the content of every list after every operation against a plain list; distinct by history')
    assumptions = ['slices with negative bounds are not judged (Jython gets those of any tuple subclass wrong)']
    required = ('read', 'mutation', 'default warning', 'own warning', 'own exception', 'empty', 'copy', 'pickled', 'made from an iterator', 'many')

    def cases(self):
        rng = self.rng
        for i in range(self.n * self.scale):
            items = [rng.choice(ITEMS) for _ in range(rng.choice([0, 1, 2, 3, 5]))]
            if rng.random() < 0.02:
                items = [i if i % 3 else 'a' for i in range(gen.large(rng, 10, 2000))]
            warning = rng.choice([None, None, 'no way', 'exception', ''])
            given = rng.choice(['list', 'tuple', 'iter', 'ilist'])
            tags = ['default warning' if warning is None else 'own exception' if warning == 'exception' else 'own warning'] + ['empty'] * (not items) + ['made from an iterator'] * (given == 'iter')
            n = len(items)
            if n > 100:
                tags.append('many')
            ix = lambda: rng.randint(-n - 1, n + 1)
            one = lambda: rng.choice(ITEMS + ['new'])
            some = lambda: [one() for _ in range(rng.randint(0, 3))]
            ops = []
            for _ in range(rng.randint(1, 12)):
                k = rng.random()
                if k < 0.1:
                    op = ['copy', rng.choice(['copy', 'deepcopy', 'pickle0', 'pickle2', 'new'])]
                    tags.append('pickled' if 'pickle' in op[1] else 'copy')
                elif k < 0.35:
                    op = rng.choice([['get', ix()], ['getslice', abs(ix()), abs(ix())], ['getstep', None, None, rng.choice([-1, 2])], ['len'], ['in', one()], ['index', one()], ['count', one()], ['add', some()], ['mul', rng.randint(0, 2)],
                                     ['eq', rng.choice([items, items[:-1], items + ['a']])]])
                    tags.append('read')
                else:
                    op = rng.choice([['delitem', ix()], ['delslice', ix(), ix()], ['delstep', None, None, 2], ['setitem', ix(), one()], ['setslice', ix(), ix(), some()], ['setstep', None, None, 2, some()],
                                     ['iadd', some()], ['imul', rng.randint(0, 3)], ['append', one()], ['extend', some()], ['insert', ix(), one()], ['pop'], ['pop', ix()], ['remove', one()],
                                     ['sort'], ['reverse']])
                    tags.append('mutation')
                ops.append([op[0], rng.randint(0, 3)] + op[1:])
            job = {'op': 'ilist', 'items': [b(x) if isinstance(x, str) else x for x in items], 'warning': b(warning) if warning not in (None, 'exception') else warning, 'given': given,
                   'steps': [[o[0], o[1]] + [self.arg(v) for v in o[2:]] for o in ops]}
            yield Case(job, {'items': items, 'ops': ops, 'warning': warning}, tags)

    @staticmethod
    def arg(v):
        return b(v) if isinstance(v, str) else [b(y) if isinstance(y, str) else y for y in v] if isinstance(v, list) else v

    def judge(self, c, res):
        x = c.x
        items = x['items']
        n = len(items)
        ps = []
        objs = 1
        for o, (got, states) in zip(x['ops'], steps(res)):
            op, a = o[0], o[2:]
            want = None
            fails = None
            if op == 'copy':
                objs += 1
                want = ['ImmutableList', items, True]
            elif op == 'get':
                if -n <= a[0] < n:
                    want = items[a[0]]
                else:
                    fails = 'IndexError'
            elif op == 'getslice':
                want = items[a[0]:a[1]]
            elif op == 'getstep':
                want = items[::a[2]]
            elif op == 'len':
                want = n
            elif op == 'in':
                want = a[0] in items
            elif op == 'index':
                if a[0] in items:
                    want = items.index(a[0])
                else:
                    fails = 'ValueError'
            elif op == 'count':
                want = items.count(a[0])
            elif op == 'add':
                want = items + a[0]
            elif op == 'mul':
                want = items * a[0]
            elif op == 'eq':
                want = [items == a[0], items != a[0]]
            else:
                fails = 'Own' if x['warning'] == 'exception' else 'AttributeError'
            if fails:
                if not is_exc(got, fails):
                    ps.append(Problem('%s%r gives %r instead of %s' % (op, tuple(a), got, fails), op))
                elif fails in ('Own', 'AttributeError'):
                    msg = {'exception': 'own', None: 'ImmutableList object is immutable.'}.get(x['warning'], x['warning'])
                    if got.msg != msg:
                        ps.append(Problem('%s%r raises %r instead of %r' % (op, tuple(a), got, msg), 'message'))
            elif got != want or isinstance(got, bool) != isinstance(want, bool):
                ps.append(Problem('%s%r gives %r instead of %r' % (op, tuple(a), got, want), op))
            if states != [['ImmutableList', items, True]] * objs:
                return ps + [Problem('after %s%r the lists are %r instead of %r' % (op, tuple(a), states, items), 'changed')]
        return ps
