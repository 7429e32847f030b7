from .common import *


class CHECK(HeadCheck):
    id = 'H03'
    n = 2600
    rule = ('one head with 0 to 3 Host fields (name in any case) and possibly an absolute target, with valid, odd and invalid '
            'host values; host and port are compared with a hand-written recogniser of host[:port]; distinct by request bytes and delivery')
    required = ('nohost', 'from-authority', 'from-field', 'several-fields', 'valid', 'invalid', 'ipv6', 'port', 'trailing-dot', 'default-443',
                'default-80', 'default-65536', 'authority-and-field', 'spellings', 'large host')

    def options(self, rng):
        return {'bad': rng.choice([0, 2, 8]), 'odd': 3, 'fields': 2, 'nhost': rng.choice([0, 1, 1, 1, 2, 3]), 'allow_nohost': True}

    def judge_hostless_accepted(self, m):
        return [Problem('a request without any host is accepted', 'hostless')]

    def check(self, m, s):
        ps = []
        for k, e in (('host', m['host']), ('get_host', m['host']), ('get_port', m['port_out'])):
            differs(ps, k, s[k], e)
        if str(s['port']) != m['port_out']:
            ps.append(Problem('port: got %r, expected %r' % (s['port'], m['port_out']), 'port'))
        self.seen('from-authority' if m['authority'] is not None else 'from-field', 'valid' if m['host'] else 'invalid')
        self.seen(*[t for t, k in (
            ('several-fields', m['nhost'] > 1 and m['authority'] is None), ('ipv6', m['host'].startswith('[')), ('port', m['port'] is not None),
            ('trailing-dot', m['hostsrc'].rstrip(':0123456789').endswith('.')), ('default-' + m['port_out'], m['port'] is None),
            ('spellings', m['spellings'] and m['authority'] is None), ('authority-and-field', m['authority'] is not None and m['nhost'] > 0)) if k])
        return ps
