"""Helpers shared by the parsing checks."""
import os, sys, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import ohc, pbt, lang
from pbt import Violation, Skip, check, Test

ENT = {'c': b'lcode', 'm': b'lcomment', 'b': b'lblank'}
RENT = {v: k for k, v in ENT.items()}

def parse_reqs(slot, lg, text, path='f'):
    return [ohc.new(slot, path, text, None, lg), ohc.req('P', slot, 1)]

def line_events(ctx, lg, text, path='f'):
    r = ctx.run(parse_reqs(0, lg, text, path))
    return ohc.events(r[1])

def classes(ev): return ''.join(RENT.get(e[1], '?') for e in ev)
def reported(key): return lang.REPORTED.get(key, key).encode()

LINE = re.compile(rb'[^\r\n\f]*(?:\r\n|\n|\f|\r)|[^\r\n\f]+$')
def lines_of(text):
    """(start, end) of every physical line, terminators included; a last line without terminator only if not white space."""
    r = [(m.start(), m.end()) for m in LINE.finditer(text)]
    if r and text[-1:] not in (b'\n', b'\r', b'\f') and not text[r[-1][0]:].strip(b' \t\v'): r.pop()
    return r

def check_coverage(text, ev, what='', skip=b' \t\r\n\f\v', listed=None):
    """Every physical line is reported exactly once, in order, by a span that ends where the line ends."""
    ls = lines_of(text)
    for i, (l, e, s, t) in enumerate(ev):
        check(e in RENT, '%sunknown line kind %r', what, e)
        check(i < len(ls), '%s%d physical lines but event %d: %r', what, len(ls), i, (l, e, s, t))
        a, b = ls[i]
        check(t == b and a <= s <= t, '%sline %d spans bytes %d-%d but was reported as %d-%d', what, i + 1, a, b, s, t)
        check(not text[a:s].strip(skip) or (listed and listed(text[a:s], text[s:t])), '%sline %d: text before the reported span: %r', what, i + 1, text[a:s])
    check(len(ev) == len(ls), '%s%d physical lines, %d reported', what, len(ls), len(ev))
    return ls
