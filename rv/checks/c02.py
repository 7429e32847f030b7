from .common import *
from . import c01


class CHECK(c01.CHECK):
    id = 'C02'
    n = 1900
    rule = ('histories of operations on immutable dictionaries made in all ways (also the ones of parsed requests) and on copies of them and of the copies; every result and the content of every dictionary after every operation against a model; '
            'distinct by history')
    required = tuple('op:' + o for o in ('setitem', 'setlist', 'setdefault', 'setlistdefault', 'appendlist', 'update', 'pop', 'popitem', 'del', 'clear', 'copy', 'mutval')) + (
        'cls:IMVD', 'cls:QDI', 'cls:parsed', 'how:copy', 'how:shallow', 'how:deep', 'how:pickle0', 'how:pickle1', 'how:pickle2', 'AttributeError', 'fromkeys', 'many keys')
    kinds = [(1, 'MVD'), (1, 'QD'), (3, 'IMVD'), (3, 'QDI'), (5, 'parsed')]
    copies = 4
    mutvals = 3
    length = (5, 22)
    assumptions = c01.CHECK.assumptions
