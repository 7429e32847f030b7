from .common import *
from .d01 import random_request, mutate_body
from .h04 import mutate
from core import shorten


def nasty(rng):
    """bodies made to make a parser spin"""
    bnd = rng.choice(['x', 'AaB03x', '-', '----', 'a' * 100, gen.gen_boundary(rng)])
    d = b'--' + bnd.encode()
    unit = rng.choice([d, d + b'\r\n', b'\r\n' + d, d + b'--', d + b'\r\n\r\n', d + b'\r\n\r\n\r\n', d[:-1], b'\r\n' + d[:-1], b'--', b'\r\n', b'-', b'\r', b'\n', d + d[:-1],
                       d + b'\r\nContent-Disposition: form-data; name="a"\r\n\r\n', d + b'\r\nContent-Disposition: form-data; name="a"; filename="b"\r\n\r\n',
                       d + b'\r\nContent-Disposition: form-data; name="a"; filename="b"\r\nContent-Transfer-Encoding: base64\r\n\r\n' + rng.choice([b'YQ', b'=', b'Y', b'!', b'YWJj\r\n', b' ', b'YWI=']),
                       d + b'\r\nContent-Disposition: form-data; name="a"\r\nContent-Transfer-Encoding: base64\r\n\r\n' + rng.choice([b'YQ', b'=', b'YWJj\r\n', b' ']),
                       b'\r\n\r\n', b'x' * 50])
    n = rng.choice([1, 2, 3, 40, 41, 45, 60, 100])
    body = (unit * n)[:3500]
    if rng.random() < 0.5:
        body = rng.choice([d + b'\r\n', d + b'\r\nContent-Disposition: form-data; name="a"; filename="b"\r\n\r\n', b'']) + body
    if rng.random() < 0.4:
        body += rng.choice([d + b'--', d + b'--\r\n', b'\r\n' + d + b'--\r\n', d])
    head = b'POST / HTTP/1.1\r\nHost: a\r\nContent-Type: multipart/form-data; boundary="' + bnd.replace('\\', '').replace('"', '').encode() + b'"\r\nContent-Length: 10\r\n\r\n'
    return head + body, {}, rng.choice([['conv'], ['mem', 'temp'], ['temp']]), [len(head)], 'nasty'


class CHECK(Check):
    id = 'D04'
    n = 1100
    rule = ('one request (valid, malformed, repetitive, cut), parsed under a budget of execution steps linear in its length, with the pulls from the source counted; distinct by bytes and delivery')
    required = ('nasty', 'badmultipart', 'cut-multipart', 'multipart', 'badhead', 'counted-steps', 'ended-with-error', 'ended-well', 'pulled-after-end', 'base64')
    technique = 'runtime monitoring: execution steps and pulls counted against bounds'
    STEPS = (60000, 1000)       # measured: at most about a fifth of it

    def cases(self):
        rng = self.rng
        for i in range(self.n * self.scale):
            data, st, hs, hot, kind = nasty(rng) if rng.random() < 0.5 else random_request(rng)
            counted = rng.random() < 0.3 and len(data) <= 4096
            tags = [kind] + (['base64'] if b'base64' in data else [])
            cuts = 1 if len(data) < 2000 and rng.random() < 0.15 else gen.cuts(rng, len(data), rng.sample(hot, min(4, len(hot))))
            if hs and rng.random() < 0.5:
                cs = rng.choice([1, 2, 3, 7, 16, 64, 100] if len(data) < 3000 else [100, 1000])
                hs = [{'builtin': h, 'chunk_size': cs} for h in hs]
            if rng.random() < 0.3:
                st['MAX_HEADER_SIZE'] = rng.choice([1, 3, 10, 100, 10 ** 6])
            j = req(data, [['parse'], ['src'], ['header'], ['parse_body'], ['src']], cuts, st, hs, 'up' if hs else None)
            if counted:
                j['budget'] = self.STEPS[0] + self.STEPS[1] * len(data)
                tags.append('counted-steps')
            yield Case(j, {'len': len(data), 'parts': data.count(b'--'), 'mhs': st.get('MAX_HEADER_SIZE')}, tags)

    maxpull = maxsteps = 0

    def judge(self, c, res):
        r = steps(res)
        if 'steps_used' in res and res['steps_used'] / (c.x['len'] + 40) > self.maxsteps:
            self.maxsteps = res['steps_used'] / (c.x['len'] + 40)
        self.seen('ended-with-error' if is_exc(r[0]) else 'ended-well')
        a = r[1]['after_end']
        if a:
            self.seen('pulled-after-end')
        self.maxpull = max(self.maxpull, a / (c.x['parts'] + 2))
        if a > 10 + 6 * c.x['parts']:
            return [Problem('the source was asked %d times after its end, for %d bytes with %d possible parts' % (a, c.x['len'], c.x['parts']), 'pulls')]
        return []

    def finish(self):
        self.features['max steps per byte'] = round(self.maxsteps, 1)
        self.features['max pulls after the end per part'] = round(self.maxpull, 2)
        return []
