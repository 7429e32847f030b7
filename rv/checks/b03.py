from .common import *
from . import b02


class CHECK(b02.CHECK):
    id = 'B03'
    opts = {'fields': (0, 2), 'files': (0, 5), 'bad': (0, 1), 'b64': 2.0}
    required = ('field', 'file', 'bad', 'base64', 'empty-data', 'lookalike', 'binary', 'big', 'handlers:conv', 'handlers:mem', 'handlers:temp', 'handlers:mem+temp',
                'in-memory', 'on-disk', 'large files', 'large repeated files', 'large name', 'large ctype', 'large file data')

    def check(self, c, m, s):
        ps = []
        parts = m['parts']
        if m['names'] == 'mem' and m['clen'] > m['limit']:
            parts = []      # there is no other handler to take the files
        infos = check_files(ps, s['FILES'], parts)
        for f in infos:
            self.seen('on-disk' if 'path' in f else 'in-memory')
        return ps
