from .common import *


class CHECK(HeadCheck):
    id = 'H02'
    what = ['meta', 'get', 'hlast']
    rule = ('one head with 0 to 12 header fields (repeated names, names differing in case, empty and odd values, white space '
            'around) at random positions around the host field; the reported fields are compared, per name and in order, with the sent '
            'ones; distinct by request bytes and delivery')
    required = ('repeated', 'host-kept', 'host-removed', 'empty-value', 'colon-in-value', 'ajax', 'plain', 'ctype-none', 'lf-in-value',
                'large value', 'large name', 'large fields', 'large repeated')

    def options(self, rng):
        return {'fields': rng.choice([2, 5, 12])}

    def check(self, m, s):
        ps = []
        if not lists_equal(s['headers'], m['headers']):
            ps.append(Problem('header fields: got %r, expected %r' % (s['headers'], m['headers']), 'fields'))
        want = dict((n, [norm(x) for x in v]) for n, v in m['headers'])
        for n, g, item, gl in s['hlast']:
            if n in want and (g != want[n][-1] or item != want[n][-1] or gl != want[n]):
                ps.append(Problem('field %r: get() %r, item %r, getlist() %r, expected %r' % (n, g, item, gl, want[n]), 'access'))
        ct = None if m['ctype'] is None else m['ctype'].split(';')[0].strip().lower()
        differs(ps, 'content_type', s['content_type'], ct)
        differs(ps, 'is_plain_text', s['is_plain_text'], ct == 'text/plain')
        differs(ps, 'is_ajax', s['is_ajax'], m['ajax'])
        differs(ps, 'is_secure', s['is_secure'], m['scheme'].lower() == 'https')
        vals = [x for _, v in m['headers'] for x in v]
        self.seen(*[t for t, k in (
            ('repeated', any(len(v) > 1 for _, v in m['headers'])), ('empty-value', '' in vals), ('colon-in-value', any(':' in x for x in vals)),
            ('lf-in-value', any('\n' in x for x in vals)), ('ajax', m['ajax']), ('plain', ct == 'text/plain'), ('ctype-none', ct is None),
            ('host-kept', m['authority'] is not None and m['nhost'] > 0), ('host-removed', m['authority'] is None and m['nhost'] > 0)) if k])
        return ps
