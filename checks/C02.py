"""C02: each line is classified as code, comment or blank by the lexical conventions of the file's language."""
from _parse import *
import hypothesis.strategies as st

def classify(ctx, case):
    text, key, cls = case['text'], case['lang'], case['cls']
    r = ctx.run(parse_reqs(0, key, text) + [ohc.new(1, 'f', text, None, key), ohc.req('O', 1)])
    ev = ohc.events(r[1])
    got = classes(ev)
    rows = text.replace(b'\r\n', b'\n').split(b'\n')
    for i in range(max(len(cls), len(got))):
        if cls[i:i + 1] != got[i:i + 1]:
            raise Violation('%s line %d (%r) should count as %r, counted as %r\nexpected %s\ngot      %s' % (key, i + 1, rows[i] if i < len(rows) else None, cls[i:i + 1], got[i:i + 1], cls, got))
    want = reported(key)
    for i, e in enumerate(ev): check(e[0] == want, '%s line %d attributed to %r', key, i + 1, e[0])
    locs = [tuple(r[3][i:i + 4]) for i in range(0, len(r[3]), 5)]
    check(locs == [(want, cls.count('c'), cls.count('m'), cls.count('b'))], 'totals %r for classes %s of %s', locs, cls, key)
    lab = list(case['feat']) + [key]
    if len(set(cls)) >= 2 and (set(case['feat']) & {'mlcomment', 'mlstring', 'string', 'nested', 'cont', 'trailing', 'stray', 'code-after-block', 'lone-close', 'blank-in-comment'}): lab.append('nontrivial')
    return lab

if __name__ == '__main__':
    sys.exit(pbt.main('C02', [
        Test('plain', lang.docs(eols=('\n', '\n', '\n', '\r\n')), classify, 40000),
        # short documents of the most awkward strings and comments: escapes, line breaks and markers in each
        Test('dense', lang.docs(eols=('\n', '\n', '\n', '\r\n'), lo=60, hi=900, dense=True), classify, 24000),
    ], rule='Documents assembled token by token from a hand-written lexical table of the 110 plain languages (comment markers, nesting, string escapes, multi-line constructs), whose line classes are '
            'known by construction; non-trivial: at least two kinds of line and a string, multi-line, nested, trailing or stray-quote construct'))
