"""C18: analysing gives back what it took: memory, open files and temporary files."""
from _parse import *
import hypothesis.strategies as st
import tree, emb, tempfile, shutil

BIG = st.tuples(st.integers(0, 9), st.integers(0, 9), st.integers(4000, 6000)).map(lambda t: b''.join(b'line %d of %d, the longest of lines\n' % (i * (t[0] + 1) % 977, t[1]) for i in range(t[2])))
OPS = {'language': lambda: [ohc.req('L', 0)], 'size': lambda: [ohc.req('Z', 0)], 'contents': lambda: [ohc.req('C', 0)], 'lines': lambda: [ohc.req('P', 0, 1)], 'entities': lambda: [ohc.req('P', 0, 0)],
       'breakdown': lambda: [ohc.req('K', 0)], 'counts': lambda: [ohc.req('O', 0)], 'licences': lambda: [ohc.req('I', 0)], 'parse': lambda: [ohc.req('p', 0)], 'diff': lambda: [ohc.req('D', 0, 1)], 'back': lambda: [ohc.req('D', 1, 0)],
       'delta': lambda: [ohc.req('d', 0, 1, 'c')], 'text': lambda: [ohc.req('E', 0, 'int x;\n')], 'set': lambda: [ohc.req('H', 0, 'java')], 'bogus': lambda: [ohc.req('H', 0, 'nope')], 'quick': lambda: [ohc.req('j', 0, 1, 0)]}

def steady(ctx, reqs, what):
    """The same work three times, everything freed each time: no more memory, files or descriptors after the third than after the second."""
    end = [ohc.req('R', 0), ohc.req('R', 1), ohc.req('V')]
    r = ctx.run([ohc.req('V')] + (reqs + end) * 3)
    k = len(reqs) + 3; u = [r[0]] + [r[k * i] for i in (1, 2, 3)]
    check(u[3][0] <= u[0][0] + 2 and u[3][0] == u[2][0], '%s: descriptors open before, and after each of three rounds: %r', what, [x[0] for x in u])
    check(not any(x[1] for x in u), '%s: temporary files left: %r', what, [x[1] for x in u])
    check(u[3][2] == u[2][2], '%s: a round leaves %d bytes allocated (after each: %r)', what, u[3][2] - u[2][2], [x[2] for x in u])
    return r

def single(ctx, case):
    top = tempfile.mkdtemp(dir=ctx.scratch)
    try:
        new = []
        for s, (how, (lg, ext, text)) in enumerate(case['files']):
            p = os.path.join(top, case['name'] + str(s) + ('.' + ext if ext else '')); dk = None; mem = None
            if how == 'disk': open(p, 'wb').write(text)
            elif how == 'location': dk = p + '.stored'; open(dk, 'wb').write(text)
            elif how == 'directory': os.mkdir(p)
            elif how == 'memory': mem = text
            new.append(ohc.new(s, p, mem, dk))
        reqs = list(new)
        for o in case['ask']: reqs += OPS[o]()
        r = steady(ctx, reqs, 'questions %r' % (case['ask'],))
        return [h for h, _ in case['files']] + (['nontrivial'] if len(case['ask']) > 1 and any(len(x) > 3 for x in r[3:len(reqs)]) else [])
    finally: shutil.rmtree(top, ignore_errors=True)

def listed(ctx, case):
    top = tempfile.mkdtemp(dir=ctx.scratch)
    try:
        files = tree.make(top, case['tree']); args = []
        for k, j in case['args']:
            if k == 'file' and files: args += [0, os.path.join(top, files[j % len(files)][0])]
            else: args += [1, top] if k == 'dir' else [j % 2, os.path.join(top, 'gone')]
        steady(ctx, [ohc.req('W', len(args) // 2, *args, case['count'])], 'list of %r' % (args,))
        return ['nontrivial'] if len(files) > 1 and case['count'] else []
    finally: shutil.rmtree(top, ignore_errors=True)

def diffs(ctx, case):
    a, b, n = case
    steady(ctx, [ohc.req('c', a, b)] * n, '%d comparisons of texts of %d and %d bytes' % (n, len(a), len(b)))
    return ['big'] * (len(a) + len(b) > 150000) + ['nontrivial']

if __name__ == '__main__':
    HOW = st.sampled_from(['disk', 'memory', 'memory', 'location', 'directory', 'gone'])
    F = st.tuples(HOW, tree.FILES)
    T = st.one_of(BIG, BIG, lang.docs(keys=['c', 'python']).map(lambda d: d['text']), st.binary(max_size=30), st.just(b''))
    sys.exit(pbt.main('C18', [
        Test('single', st.fixed_dictionaries({'files': st.tuples(F, F), 'name': st.sampled_from(['a', 'x.y', 'a b']), 'ask': st.lists(st.sampled_from(sorted(OPS)), min_size=1, max_size=7)}), single, 9000),
        Test('listed', st.fixed_dictionaries({'tree': tree.TREE, 'args': st.lists(st.tuples(st.sampled_from(['file', 'dir', 'gone']), st.integers(0, 9)), max_size=4), 'count': st.integers(0, 1)}), listed, 1500),
        Test('diffs', st.tuples(T, T, st.integers(1, 3)), diffs, 500),
    ], rule='Sequences of questions to files from memory, disk, another place, or unreadable, each repeated three times in one process; lists of generated trees; comparisons small and large. Non-trivial: more than one question and one with an answer; a counted tree of several files; any comparison'))
