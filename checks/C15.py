"""C15: totals and merges of line counts and of line changes behave as sums per language."""
from _parse import *
import hypothesis.strategies as st

LANGS = ['c', 'cpp', 'csharp', 'css', 'r', 'ruby']
NL = 3
def program(op, width, ctx, case):
    L = [dict() for _ in range(NL)]; body = []; want = []
    o = lambda x: body.append(ohc.req('x', *x)[1:])
    def nets(v): return [v[0] - v[1], v[2] - v[3], v[4] - v[5]]
    merges = 0
    for k, i, j, lg, v in case:
        v = list(v[:width])
        if k == 'a':
            o([ord('a'), i, lg] + v)
            merges += lg in L[i]
            L[i][lg] = [x + y for x, y in zip(L[i].get(lg, [0] * width), v)]
            want += [sum(v[:3])] if width == 4 else nets(v) + [sum(nets(v)), int(any(v))]
        elif k == 'l':
            o([ord('l'), i, j]); src = {a: list(b) for a, b in L[j].items()}
            for a, b in src.items():
                merges += a in L[i]
                L[i][a] = [x + y for x, y in zip(L[i].get(a, [0] * width), b)]
        elif k == 'c':
            o([ord('c'), i, j]); L[i] = {a: list(b) for a, b in L[j].items() if (sum(b[:3]) if width == 4 else any(b))}
        elif k == 'g':
            o([ord('g'), i, lg]); w = L[i].get(lg)
            want += [None] if w is None else [lg.encode()] + w + ([sum(w[:3])] if width == 4 else [])
        elif k == 's':
            o([ord('s'), i]); t = [sum(x) for x in zip(*L[i].values())] or [0] * width
            want += t[:3] + [sum(t[:3]), t[3]] if width == 4 else t + nets(t) + [sum(nets(t))]
        elif k == 'd':
            o([ord('d'), i]); want += [len(L[i])]
            for a, b in L[i].items(): want += [a.encode()] + b
        else:
            l2 = LANGS[j % len(LANGS)]; w = [x if (j >> q) & 1 else x + (q == j % width) for q, x in enumerate(v)] if j % 3 else v
            o([ord('e'), lg, l2] + v + w)
            want += [int(lg == l2 and v == w)] + ([x + y for x, y in zip(v, w)] if lg == l2 else v)
    req = ohc.req(op, len(case)) + b''.join(body)
    got = ctx.run([req])[0]
    check(got == want, 'operations %r\nresults  %r\nexpected %r', case, got, want)
    return ['merges%d' % min(merges, 3)] + (['nontrivial'] if merges and any(len(l) > 1 for l in L) else [])

VAL = st.one_of(st.sampled_from([0, 0, 0, 1, 1, 2]), st.integers(0, 100000))
STEP = st.tuples(st.sampled_from('aaaaallcggssdde'), st.integers(0, NL - 1), st.integers(0, NL - 1), st.sampled_from(LANGS), st.tuples(*[VAL] * 6))
# a program ends by showing every list
END = [('d', i, 0, 'c', (0,) * 6) for i in range(NL)] + [('s', i, 0, 'c', (0,) * 6) for i in range(NL)]
PROG = st.lists(STEP, min_size=6, max_size=30).map(lambda l: l + END)
def bounded(case):
    # lists may be added to themselves: keep sums far from overflow
    d = 0
    for s in case: d += s[0] == 'l'
    return d <= 8
if __name__ == '__main__':
    sys.exit(pbt.main('C15', [
        Test('counts', PROG.filter(bounded), lambda ctx, c: program('M', 4, ctx, c), 9000),
        Test('changes', PROG.filter(bounded), lambda ctx, c: program('m', 6, ctx, c), 9000),
    ], rule='Programs of up to 40 operations (add, merge lists, compact, look up, total, compare) on four lists against dictionaries of sums; non-trivial: an entry was merged into an existing one and a list holds two languages'))
