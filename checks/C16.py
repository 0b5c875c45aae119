"""C16: analysing directories finds every regular file below them once and adds up their counts."""
from _parse import *
import hypothesis.strategies as st
import tree, tempfile, shutil

def rows(it): return {it[i]: it[i + 1:i + 5] for i in range(0, len(it), 5)}

def walk(ctx, case):
    top = tempfile.mkdtemp(dir=ctx.scratch)
    try:
        roots = []
        for i, t in enumerate(case['trees']):
            r = os.path.join(top, case['under'], 'r%d' % i); os.makedirs(r); roots.append((r, tree.make(r, t)))
        items = []; want = []
        for kind, k, j, slash in case['adds']:
            r, files = roots[k % len(roots)]
            if kind == 'dir':
                arg = r + '/' * slash; items += [1, arg]
                want.append([(arg + '/' + f[0]).encode() for f in files])
            elif kind == 'missing': items += [1, r + '/no such directory']; want.append([])
            elif kind == 'notdir':
                if files: items += [1, os.path.join(r, files[0][0])]; want.append([])
            elif files:
                p = os.path.join(r, files[j % len(files)][0]); items += [0, p]; want.append([p.encode()])
        n = len(items) // 2
        if not n: raise Skip
        got = ctx.run([ohc.req('W', n, *items, 1)])[0]
        k = got[0]; paths = got[1:1 + k]; totals = rows(got[1 + k:])
        at = 0
        for w in want:
            # the files of one argument come together, in any order
            part = paths[at:at + len(w)]; at += len(w)
            check(sorted(part) == sorted(w), 'files found\n%s\nshould be\n%s', b'\n'.join(sorted(part)).decode('utf-8', 'replace'), b'\n'.join(sorted(w)).decode('utf-8', 'replace'))
        check(at == k, '%d files found, should be %d: %r', k, at, paths[at:at + 5])
        sums = {}; order = []
        for p in paths:
            one = rows(ctx.run([ohc.new(0, p), ohc.req('O', 0)])[1])
            for l, v in one.items():
                if l not in sums: order.append(l)
                sums[l] = [x + y for x, y in zip(sums.get(l, [0] * 4), v)]
        check(totals == sums, 'totals %r, the files add up to %r', totals, sums)
        known = {}
        for w, (kind, kk, j, s) in zip(want, [a for a in case['adds'] if not (a[0] in ('notdir', 'file') and not roots[a[1] % len(roots)][1])]):
            files = roots[kk % len(roots)][1]
            for f in (files if kind == 'dir' else [files[j % len(files)]] if kind == 'file' else []):
                ls = len(lines_of(f[2]))
                if f[1] and f[2]: known['lines'] = known.get('lines', 0) + ls
        got_lines = sum(sum(v[:3]) for v in totals.values())
        check(got_lines >= known.get('lines', 0), '%d lines counted, the source files hold at least %d', got_lines, known.get('lines', 0))
        return ['files%d' % min(k, 8)] + (['nontrivial'] if k > 2 and len(totals) > 1 else [])
    finally: shutil.rmtree(top, ignore_errors=True)

ADD = st.tuples(st.sampled_from(['dir', 'dir', 'dir', 'dir', 'file', 'file', 'missing', 'notdir']), st.integers(0, 2), st.integers(0, 20), st.sampled_from([0, 0, 1]))
if __name__ == '__main__':
    sys.exit(pbt.main('C16', [Test('walk', st.fixed_dictionaries({'under': st.sampled_from(['', '', '.', 'a', '.hidden', 'x.y', '.git/z', '..', 'a/..', 'z' * 200]).map(lambda u: u if '..' not in u else u + 'u/.v'), 'trees': st.lists(tree.TREE, min_size=1, max_size=2), 'adds': st.lists(ADD, min_size=1, max_size=4)}), walk, 4000)],
        rule='Generated trees with nested and hidden directories, hidden files, odd names, symbolic links, pipes and non-source files, added as directories or single files; non-trivial: more than two files and two languages'))
