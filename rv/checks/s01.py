from .common import *
from .d01 import random_request, outcome

ALL = ['meta', 'get', 'data', 'code']


class CHECK(Check):
    id = 'S01'
    n = 260
    thorough = 14
    timeout = 90
    rule = ('a group of random requests, each parsed alone, then all with one settings object: one after another, nested (one is parsed whenever the source of another is asked for data) or in threads, '
            'then what they handed out is changed, and each parsed alone again; all outcomes of one request are compared; distinct by group and mode')
    technique = 'runtime monitoring: metamorphic comparison of isolated, interleaved and concurrent executions'
    level_note = ('Nested interleavings are deterministic; those of threads are what the scheduler gave, with the number of overlapping requests in the evidence.')
    required = ('seq', 'nested', 'threads', 'overlapping', 'nested inside', 'charset', 'files', 'failed', 'vandals', 'multipart', 'form')

    def cases(self):
        rng = self.rng
        for i in range(self.n * self.scale):
            mode = rng.choice(['seq', 'seq', 'nested', 'nested', 'threads'])
            k = rng.randint(2, 5) if mode != 'threads' else rng.randint(6, 10)
            jobs = []
            tags = [mode]
            shared = {'FILE_UPLOAD_MAX_MEMORY': rng.choice([0, 10, 100, 10 ** 6]), 'DATA_UPLOAD_MAX_FIELDS': rng.choice([2, 5, 1000, None]), 'DATA_UPLOAD_MAX_MEMORY': rng.choice([20, 100, 10 ** 6, None]),
                      'MAX_HEADER_SIZE': rng.choice([1, 16, 100]), 'DEFAULT_CHARSET': rng.choice(['iso-8859-1', 'utf-8', 'koi8-r'])}
            if rng.random() < 0.7:
                shared['HANDLERS'] = [rng.choice([x]) for x in rng.choice([['conv'], ['temp'], ['mem', 'temp']])]
                from_names = {'conv': 'request_parser.files.uploadhandler.ConvenientFileUploadHandler', 'mem': 'request_parser.files.uploadhandler.MemoryFileUploadHandler',
                              'temp': 'request_parser.files.uploadhandler.TemporaryFileUploadHandler'}
                shared['HANDLERS'] = [from_names[x] for x in shared['HANDLERS']]
            while len(jobs) < k:
                data, _, _, hot, kind = random_request(rng)
                if len(data) > 20000:
                    continue
                tags.append('multipart' if 'multipart' in kind else kind)
                if b'charset' in data:
                    tags.append('charset')
                stps = rng.choice([[['parse'], ['snap', ALL]], [['header'], ['snap', ALL], ['parse_body'], ['snap', ALL]], [['header'], ['body'], ['parse_body'], ['snap', ALL]], [['parse'], ['snap', ALL], ['src']]])
                if rng.random() < 0.15:
                    stps = [['header'], ['set', 'encoding', rng.choice(['utf-8', 'koi8-r', 'iso-8859-1'])], ['parse_body'], ['snap', ALL]]
                j = req(data, stps, gen.cuts(rng, len(data), rng.sample(hot, min(3, len(hot)))), updir='up')
                jobs.append(j)
            order = list(range(k))
            rng.shuffle(order)
            n0 = len(jobs[order[0]]['src']['data'])
            yield Case({'op': 'together', 'jobs': jobs, 'mode': mode, 'shared': shared, 'order': order, 'pulls': [rng.choice([1, 2, 3, 5, 8, 13, 30, 60]) for _ in range(k - 1)], 'threads': rng.randint(2, 6),
                        'vandals': rng.sample(range(k), rng.randint(1, k - 1)), 'updir': 'up'}, None, tags)

    def judge(self, c, res):
        ps = []
        if res['overlap']:
            self.seen('nested inside' if c.job['mode'] == 'nested' else 'overlapping')
        if c.job['vandals']:
            self.seen('vandals')
        how = c.job['mode']
        for i, (a, t, z) in enumerate(zip(res['alone'], res['together'], res['again'])):
            a, t, z = outcome(a), outcome(t or []), outcome(z)
            if any(isinstance(s, dict) and s.get('FILES') for s in a):
                self.seen('files')
            if any(isinstance(s, dict) and 'exc' in s for s in a):
                self.seen('failed')
            if a != t:
                ps.append(Problem('request %d alone gives %s, together with others (%s) %s' % (i, repr(a)[:700], how, repr(t)[:700]), 'together'))
            if a != z:
                ps.append(Problem('request %d first gives %s, after the others %s' % (i, repr(a)[:700], repr(z)[:700]), 'later'))
            last = [s for s in a if isinstance(s, dict) and 'POST' in s]
            if last and not any(isinstance(s, dict) and 'exc' in s for s in a):
                kept = outcome([res['kept'][i]])[0]
                want = dict((k, v) for k, v in last[-1].items() if not k.startswith(('get_', 'is_')))
                if kept != want:
                    ps.append(Problem('request %d reported %s, later %s' % (i, repr(want)[:700], repr(kept)[:700]), 'kept'))
        k2 = [x for i, x in enumerate(res['kept']) if i not in c.job['vandals']]
        if outcome(k2) != outcome(res['kept2']):
            ps.append(Problem('what a request reports changes when the values of another are changed: %s, %s' % (repr(k2)[:700], repr(res['kept2'])[:700]), 'changed'))
        if res['before'] != res['after']:
            ps.append(Problem('the settings were changed: %s, %s' % (repr(res['before'])[:700], repr(res['after'])[:700]), 'settings'))
        return ps
