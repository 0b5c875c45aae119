"""C08: the per-language breakdown of a file is made of exactly its annotated lines."""
from _parse import *
import hypothesis.strategies as st
import emb, odd

def model(text, ev):
    out = {}
    for l, e, a, b in ev:
        p = out.setdefault(l, {'c': [], 'm': [], 'n': [0, 0, 0]})
        k = RENT[e]
        if k == 'b': p['n'][2] += 1
        else:
            p['n'][0 if k == 'c' else 1] += 1
            p[k].append(text[a:b].lstrip(b' \t'))
    for p in out.values(): p['c'], p['m'] = b''.join(p['c']), b''.join(p['m'])
    return out

def breakdown(ctx, case):
    text, key = case['text'], case['lang']
    other = case.get('other')
    r = ctx.run(parse_reqs(0, key, text) + [ohc.new(1, 'f', text, None, key), ohc.req('K', 1), ohc.req('O', 1), ohc.req('K', 1),
                ohc.new(2, 'f', text, None, key), ohc.req('O', 2), ohc.req('I', 2), ohc.req('K', 2), ohc.req('O', 2)])
    want = model(text, ohc.events(r[1]))
    check(r[3] == r[5] == r[9], 'the breakdown differs when asked for again, or after the counts: %r / %r / %r', r[3][:12], r[5][:12], r[9][:12])
    check(r[4] == r[7] == r[10], 'the counts differ when asked for again: %r / %r', r[4], r[7])
    K = [r[3][i:i + 6] for i in range(0, len(r[3]), 6)]
    check([k[0] for k in K] == list(want), 'languages %r, annotated in the order %r', [k[0] for k in K], list(want))
    for n, code, com, a, b, c in K:
        w = want[n]
        check([a, b, c] == w['n'], '%r: counts %r, annotated lines %r', n, [a, b, c], w['n'])
        check(code == w['c'], '%r: code\n%r\nannotated as code\n%r', n, code, w['c'])
        check(com == w['m'], '%r: comments\n%r\nannotated as comments\n%r', n, com, w['m'])
    L = [r[4][i:i + 5] for i in range(0, len(r[4]), 5)]
    check({l[0]: l[1:] for l in L} == {n: w['n'] + [1] for n, w in want.items()} and len(L) == len(want), 'line counts %r, annotated lines %r', L, {n: w['n'] for n, w in want.items()})
    return ['languages%d' % min(len(K), 3)] + (['nontrivial'] if sum(1 for k in K for x in k[3:] if x) > 1 else [])

def many(t):
    """Closed documents one after the other, up to some hundred kB."""
    ds, order, wide = t
    ts = [d['text'] if d['text'].endswith(b'\n') else d['text'] + b'\n' for d in ds]
    out = b''.join(ts[i % len(ts)] + (b' ' * wide + b'\n' if i % 7 == 6 else b'') for i in order * (1 + 90000 // (1 + sum(len(ts[i % len(ts)]) for i in order))))
    return {'lang': ds[0]['lang'], 'text': out[:400000]}
LARGE = st.tuples(st.sampled_from(sorted(lang.TABLE)).flatmap(lambda k: st.lists(lang.docs(keys=[k], eols=('\n', '\r\n')).filter(lambda d: 'stray' not in d['feat']), min_size=1, max_size=3)), st.lists(st.integers(0, 5), min_size=1, max_size=9), st.sampled_from([0, 0, 3000])).map(many)

if __name__ == '__main__':
    sys.exit(pbt.main('C08', [
        Test('plain', lang.docs(eols=('\n', '\n', '\r\n')), breakdown, 14000),
        Test('embedded', emb.docs(), breakdown, 14000),
        Test('odd', odd.texts(), breakdown, 12000),
        Test('large', LARGE, breakdown, 200),
    ], rule='Generated files of every language and of every host with embedded languages, the same with white space and marks put anywhere (so that constructs stay open), and documents of 90 to 400 kB; non-trivial: at least two of the totals are not zero'))
