from .common import *


class CHECK(HeadCheck):
    id = 'H01'
    rule = ('one head assembled from a random method, scheme, authority, path, query, fragment and protocol token plus decoy '
            'headers and body, delivered in random chunks with a random read size; every case is one parsed request whose reported '
            'request line is compared with the parts it was assembled from; distinct by request bytes and delivery')
    required = ('target:origin', 'target:absolute', 'target:star', 'query', 'fragment', 'params', 'empty-path', 'colon-in-path',
                'large path', 'large query', 'large method', 'large proto', 'large fragment')

    def options(self, rng):
        return {'bad': 0.2}

    def check(self, m, s):
        ps = []
        for k, e in (('method', m['method']), ('scheme', m['scheme_out']), ('path', m['path']), ('protocol_info', m['proto']),
                     ('qs', m['qs']), ('get_method', m['method']), ('get_scheme', m['scheme_out']), ('get_path', m['path']),
                     ('get_protocol_info', m['proto']), ('is_secure', m['scheme_out'] == 'https')):
            differs(ps, k, s[k], e)
        if m['qs']:
            self.seen('query')
        if m['fragment'] is not None:
            self.seen('fragment')
        if ';' in m['path']:
            self.seen('params')
        if m['path'] == '':
            self.seen('empty-path')
        if ':' in m['path']:
            self.seen('colon-in-path')
        return ps
