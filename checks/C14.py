"""C14: the difference of two revisions of a file is, per language, the line difference of their code and comments."""
from _parse import *
import hypothesis.strategies as st
import emb
from C13 import model as shortest
import C08

def side(m, l, k): return [x for x in m[l][k].split(b'\n') if x] if l in m else []
def blanks(m, l): return m[l]['n'][2] if l in m else 0

def diffs(ctx, case):
    a, b = case['a'], case['b']
    N = lambda i, d: ohc.new(i, case['path'], d['text'], None, d['lang'])
    r = ctx.run([N(0, a), ohc.req('P', 0, 1), N(1, b), ohc.req('P', 1, 1), N(2, a), N(3, b), ohc.req('D', 2, 3), ohc.req('D', 3, 2), ohc.req('D', 2, 2), ohc.req('O', 2), ohc.req('O', 3), N(4, b), ohc.req('D', 3, 4)])
    for d, ev in ((a, r[1]), (b, r[3])):
        # an edit that leaves a comment or string open is outside the domain: such lines are not counted once each
        try: check_coverage(d['text'], ohc.events(ev))
        except Violation: raise Skip
    ma, mb = C08.model(a['text'], ohc.events(r[1])), C08.model(b['text'], ohc.events(r[3]))
    rows = lambda it: {it[i]: tuple(it[i + 1:i + 7]) for i in range(0, len(it), 7)}
    names = list(ma) + [l for l in mb if l not in ma]
    D = rows(r[6]); what = 'from (%s)\n%s\n-- to (%s)\n%s\n-- ' % (a['lang'], a['text'][:900], b['lang'], b['text'][:900])
    check([r[6][i] for i in range(0, len(r[6]), 7)] == names, '%slanguages %r, should be %r', what, list(D), names)
    for l in names:
        c, m = shortest(side(ma, l, 'c'), side(mb, l, 'c')), shortest(side(ma, l, 'm'), side(mb, l, 'm'))
        x = blanks(mb, l) - blanks(ma, l)
        want = c + m + (max(x, 0), max(-x, 0))
        check(D[l] == want, '%s%r: code, comments, blanks added and removed %r, should be %r', what, l, D[l], want)
    back = rows(r[7])
    check(back == {l: (v[1], v[0], v[3], v[2], v[5], v[4]) for l, v in D.items()}, '%sthe other way round %r, this way %r', what, back, D)
    for z in (r[8], r[12]): check(not any(any(v) for v in rows(z).values()), '%sa file differs from itself: %r', what, z)
    loc = lambda it: {it[i]: it[i + 1:i + 4] for i in range(0, len(it), 5)}
    la, lb = loc(r[9]), loc(r[10])
    for l in names:
        p, q = la.get(l, [0, 0, 0]), lb.get(l, [0, 0, 0]); v = D[l]
        check([v[0] - v[1], v[2] - v[3], v[4] - v[5]] == [y - x for x, y in zip(p, q)], '%s%r: net change %r, but the counts go from %r to %r', what, l, v, p, q)
    ch = sum(1 for v in D.values() if any(v))
    return ['changed%d' % min(ch, 2)] + (['nontrivial'] if any((v[0] or v[2]) and (v[1] or v[3]) for v in D.values()) else [])

def myers(a, b):
    """Lines added and removed by a shortest edit script, in time of its length."""
    n, m = len(a), len(b); v = {1: 0}
    for d in range(n + m + 1):
        for k in range(-d, d + 1, 2):
            x = v[k + 1] if k == -d or k != d and v[k - 1] < v[k + 1] else v[k - 1] + 1
            while x < n and x - k < m and a[x] == b[x - k]: x += 1
            v[k] = x
            if x >= n and x - k >= m: return (d + m - n) // 2, (d + n - m) // 2

def large(ctx, case):
    """Revisions of which one language's code or comments pass 100 kB on a side, a few lines apart."""
    a, b = case['a'], case['b']
    N = lambda i, d: ohc.new(i, 'f', d['text'], None, d['lang'])
    r = ctx.run([N(0, a), ohc.req('P', 0, 1), N(1, b), ohc.req('P', 1, 1), N(2, a), N(3, b), ohc.req('D', 2, 3), ohc.req('D', 3, 2)])
    for d, ev in ((a, r[1]), (b, r[3])):
        try: check_coverage(d['text'], ohc.events(ev))
        except Violation: raise Skip
    ma, mb = C08.model(a['text'], ohc.events(r[1])), C08.model(b['text'], ohc.events(r[3]))
    names = list(ma) + [l for l in mb if l not in ma]
    D = {r[6][i]: tuple(r[6][i + 1:i + 7]) for i in range(0, len(r[6]), 7)}; B = {r[7][i]: tuple(r[7][i + 1:i + 7]) for i in range(0, len(r[7]), 7)}
    check(sorted(D) == sorted(names), 'languages %r, should be %r', list(D), names)
    for l in names:
        x = blanks(mb, l) - blanks(ma, l)
        want = myers(side(ma, l, 'c'), side(mb, l, 'c')) + myers(side(ma, l, 'm'), side(mb, l, 'm')) + (max(x, 0), max(-x, 0))
        check(D[l] == want, '%r of %d to %d bytes: code, comments, blanks added and removed %r, should be %r', l, len(a['text']), len(b['text']), D[l], want)
        v = want; check(B[l] == (v[1], v[0], v[3], v[2], v[5], v[4]), '%r: the other way round %r, this way %r', l, B[l], v)
    return (['nontrivial'] if any((v[0] or v[2]) and (v[1] or v[3]) for v in D.values()) else []) + ['over'] * any(len(m[l][k]) > 100000 for m in (ma, mb) for l in m for k in 'cm')

LINES = {'c': ['foo_%d(x, "a%d");', '// note %d of %d', '/* %d\n   %d */', '\tif (a > %d) b = %d;'], 'python': ['foo_%d(%d)', '# note %d, %d', '  x%d = "%d"'], 'sql': ['select a%d from t%d;', '-- note %d %d'],
         'html': ['<p>%d and %d</p>', '<!-- note %d %d -->', '<script type="text/javascript">\nvar a%d = %d;\n// js note\n</script>', '<style type="text/css">\np%d { margin: %d }\n</style>'], 'lua': ['x%d = %d', '-- note %d %d']}
LONG = {'c': 's = "%s";', 'python': '# %s', 'sql': '-- %s', 'html': '<!-- <a %s -->', 'lua': '-- x%s'}
@st.composite
def bigrev(draw):
    key = draw(st.sampled_from(sorted(LINES))); w = draw(st.lists(st.integers(0, 9), min_size=2, max_size=6)); n = draw(st.sampled_from([300, 2500, 3500, 6000, 9000])); eol = draw(st.sampled_from(['\n', '\n', '\r\n']))
    every = draw(st.sampled_from([1, 1, 3, 50]))        # how many lines in a row are alike
    L = [l.replace('note ', 'note ' + 'word ' * 12).replace('foo_', 'foo_' + 'a' * 50).replace('x%d', 'x' * 50 + '%d').replace('select a', 'select ' + 'a' * 40).replace('<p>', '<p>' + 'text ' * 10) for l in LINES[key]]
    t = [('' if w[i % len(w)] == 9 else L[w[i % len(w)] % len(L)] % (i // every, i // every * 7)) .replace('\n', eol) + eol for i in range(n)]
    u = list(t)
    for op, i, j, k in draw(st.lists(st.tuples(st.integers(0, 6), st.integers(0, 10**6), st.integers(0, 10**6), st.integers(1, 30)), min_size=1, max_size=6)):
        i %= len(u); j %= len(u)
        if op == 0: del u[i:i + k]
        elif op == 1: u.insert(j, u[i])
        elif op == 2: u[i], u[j] = u[j], u[i]
        elif op == 3: u.insert(i, eol)
        elif op == 5:        # long lines that look like the marks of changes in parts
            u[i:i] = [LONG[key] % ((['<', '>', '> ', '< > ', '>>>!', '---'][j % 6] * (k * j % 20000 // 3 + 1))) + eol] * (1 + k % 2)
        else: u[i:i] = [L[0].replace('%d', '%dn') % (q, j) + eol for q in range(k)]
        if not u: break
    a, b = {'lang': key, 'text': ''.join(t).encode()}, {'lang': key, 'text': ''.join(u).encode()}
    if draw(st.booleans()): b['text'] = b['text'].rstrip(b'\r\n')
    return {'a': a, 'b': b} if draw(st.booleans()) else {'a': b, 'b': a}

ANY = st.one_of(lang.docs(eols=('\n', '\n', '\r\n')), emb.docs())
@st.composite
def rev(draw):
    d = draw(ANY); a = {'lang': d['lang'], 'text': d['text']}
    k = draw(st.integers(0, 5))
    if k == 0:
        e = draw(ANY); b = {'lang': e['lang'], 'text': e['text']}
    else:
        # a revision: lines dropped, doubled, swapped, taken from elsewhere or indented differently
        t = re.findall(rb'[^\n]*\n|[^\n]+$', a['text'])
        for op, i, j in draw(st.lists(st.tuples(st.integers(0, 5), st.integers(0, 40), st.integers(0, 40)), min_size=1, max_size=5)):
            if not t: break
            i %= len(t); j %= len(t)
            if op == 0: del t[i]
            elif op == 1: t.insert(j, t[i])
            elif op == 2: t[i], t[j] = t[j], t[i]
            elif op == 3: t.insert(i, b'\n')
            elif op == 4: t[i] = t[i].replace(b'a', b'zz')
            else: t.insert(i, b'new_%d\n' % j)
        b = {'lang': a['lang'], 'text': b''.join(t)}
    if draw(st.booleans()): a, b = b, a
    return {'a': a, 'b': b, 'path': draw(st.sampled_from(['f', 'dir/f.x', 'a b.c']))}
if __name__ == '__main__':
    sys.exit(pbt.main('C14', [Test('diffs', rev(), diffs, 30000), Test('large', bigrev(), large, 160)],
        rule='Pairs of revisions (a generated single-language or embedded file and its edited copy, or two unrelated files), and large files a few lines apart; non-trivial: some language has code or comments both added and removed'))
