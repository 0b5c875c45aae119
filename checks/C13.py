"""C13: the number of lines added and removed between two texts is that of a shortest edit script."""
from _parse import *
import hypothesis.strategies as st

def lcs(a, b):
    # prefix and suffix belong to some longest common subsequence
    i = 0
    while i < len(a) and i < len(b) and a[i] == b[i]: i += 1
    j = 0
    while j < len(a) - i and j < len(b) - i and a[-1 - j] == b[-1 - j]: j += 1
    a, b = a[i:len(a) - j], b[i:len(b) - j]
    row = [0] * (len(b) + 1)
    for x in a:
        prev = 0
        for k, y in enumerate(b):
            cur = row[k + 1]
            row[k + 1] = prev + 1 if x == y else max(cur, row[k])
            prev = cur
    return i + j + row[-1]

def diff(ctx, pairs):
    return [tuple(x) for x in ctx.run([ohc.req('c', a, b) for a, b in pairs])]

def text(lines, nl): return b''.join(l + b'\n' for l in lines[:-1]) + (lines[-1] + (b'\n' if nl else b'') if lines else b'')

def model(a, b):
    n = lcs(a, b)
    return len(b) - n, len(a) - n

def show(l): return b'\n'.join(l)[:1200]

def exact(ctx, case):
    a, b = case['a'], case['b']; pre, suf = case['pre'], case['suf']
    A, B = text(a, case['nl']), text(b, True)
    A2, B2 = text(pre + a + suf, True), text(pre + b + suf, True)
    got, back, same, wide = diff(ctx, [(A, B), (B, A), (A, A), (A2, B2)])
    want = model(a, b)
    check(got == want, 'from\n%s\n-- to\n%s\n-- added, removed %r, a shortest edit script has %r', show(a), show(b), got, want)
    check(back == want[::-1], 'from\n%s\n-- to\n%s\n-- added, removed %r, the other way round %r', show(a), show(b), got, back)
    check(same == (0, 0), 'a text against itself: %r\n%s', same, show(a))
    w2 = model(pre + a + suf, pre + b + suf)
    check(wide == w2, 'from\n%s\n-- to\n%s\n-- added, removed %r, a shortest edit script has %r', show(pre + a + suf), show(pre + b + suf), wide, w2)
    return ['changed' if want != (0, 0) else 'same'] + (['nontrivial'] if 0 < want[0] and 0 < want[1] and lcs(a, b) else [])

def big(ctx, case):
    """Texts over the size from which an external diff does the work."""
    import random
    rnd = random.Random(case['seed'])
    n = case['n']; w = case['width']
    a = [b'%d %s' % (i, bytes(rnd.choice(b'abcdefgh ;<>') for _ in range(6)) * (w // 6)) for i in range(n)]
    b = list(a); k = [0, 0]
    used = set()
    for kind, at, m in case['edits']:
        at %= n - 40; at -= at % 40
        if at in used: continue
        used.add(at)
        i = next(j for j, x in enumerate(b) if x == a[at])
        new = [b'> %d new %d' % (len(used), q) for q in range(m)]
        if kind == 'ins': b[i:i] = new; k[0] += m
        elif kind == 'del': del b[i:i + m]; k[1] += m
        else: b[i:i + m] = new; k[0] += m; k[1] += m
    A, B = text(a, case['nla']), text(b, case['nlb'])
    if max(len(A), len(B)) <= 100000: raise Skip
    got, back, same = diff(ctx, [(A, B), (B, A), (B, B)])
    check(got == tuple(k), '%d lines of %d bytes, edits %r: added, removed %r, should be %r', n, w, case['edits'], got, tuple(k))
    check(back == tuple(k[::-1]), '%d lines of %d bytes, edits %r: the other way round %r, should be %r', n, w, case['edits'], back, tuple(k[::-1]))
    check(same == (0, 0), 'a large text against itself: %r', same)
    return ['edits%d' % min(len(used), 3)] + (['nontrivial'] if k[0] and k[1] else [])

WORD = st.one_of(st.sampled_from([b'a', b'b', b'c', b'd', b'ab', b'ba', b'abc', b'cab', b'bca', b'{', b'}', b'x = 1;', b'1; x =', b'\t', b' ', b'\r', b'a\r', b'\xc3\xa9', b'\xff', b'listen', b'silent', b'0', b'00']),
                 st.sampled_from([b'a', b'b', b'c']), st.integers(0, 30).map(lambda i: b'l%d' % i), st.text('abc', min_size=1, max_size=4).map(str.encode), st.binary(min_size=1, max_size=4).map(lambda b: b.replace(b'\n', b'n').replace(b'\0', b'0')))
FEW = st.sampled_from([b'a', b'b', b'c'])
SEQ = st.one_of(st.lists(WORD, max_size=25), st.lists(FEW, max_size=40), st.lists(st.sampled_from([b'ab', b'ba', b'aab', b'aba']), max_size=40))
@st.composite
def pair(draw):
    a = draw(SEQ)
    if draw(st.booleans()): b = draw(SEQ)
    else:
        b = list(a)
        for k, i, j, w in draw(st.lists(st.tuples(st.integers(0, 4), st.integers(0, 60), st.integers(0, 60), WORD), max_size=6)):
            if k == 0: b.insert(i % (len(b) + 1), w)
            elif not b: continue
            elif k == 1: del b[i % len(b)]
            elif k == 2: b[i % len(b)] = w
            elif k == 3: b.insert(j % (len(b) + 1), b.pop(i % len(b)))
            else: b[i % len(b):i % len(b)] = b[j % len(b):j % len(b) + 4]
    sh = st.one_of(st.just([]), st.lists(FEW, max_size=6), st.lists(WORD, max_size=8))
    return {'a': a, 'b': b, 'nl': draw(st.booleans()), 'pre': draw(sh), 'suf': draw(sh)}

BIG = st.fixed_dictionaries({'seed': st.integers(0, 10**6), 'n': st.integers(60, 2500), 'width': st.sampled_from([30, 60, 300, 3000, 12000]), 'nla': st.booleans(), 'nlb': st.booleans(),
                             'edits': st.lists(st.tuples(st.sampled_from(['ins', 'del', 'rep']), st.integers(0, 5000), st.integers(1, 30)), max_size=6)}).map(lambda d: dict(d, n=max(60, min(d['n'], 1500000 // d['width'], max(120000 // d['width'], d['n'])))))
if __name__ == '__main__':
    sys.exit(pbt.main('C13', [
        Test('exact', pair(), exact, 24000),
        Test('big', BIG, big, 400),
    ], rule='Pairs of line sequences (independent, or edited by insertion, deletion, replacement, moves and copies), small texts and texts over 100 kB; non-trivial: lines are both added and removed while some stay'))
