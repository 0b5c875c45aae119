"""C21: the Ruby binding gives what the C library gives."""
from _parse import *
import hypothesis.strategies as st
import tree, emb, ohcrb, tempfile, shutil

B = ohcrb.b
COUNTING = ('breakdowns', 'languages', 'locs', 'loc_totals', 'licenses', 'breakdown', 'diff')
HTEXT = [b'#include <stdio.h>\nint x;\n', b'#include <vector>\nclass A {\n};\n', b'#include "b.h"\ntemplate <class T> class Q;\n', b'#import <Foundation/Foundation.h>\n@interface A\n@end\n', b'% a comment\nfunction y = f(x)\n', b'int y; // z\n\n']
NEAR = ['a.c', 'a.cpp', 'a.cc', 'b.m', 'b.mm', 'm.mk', 'x.h', 'vector', 'README', 'caf\u00e9.c', 'd/e.cpp', '']
HFILE = st.tuples(st.none(), st.sampled_from(['h', 'm', 'in', 'h', 'm', 'inc', 'pl', 'bas', 'frm', 'f']), st.sampled_from(HTEXT))
FILE = st.one_of(tree.FILES, tree.FILES, HFILE)
# a string of Ruby may hold any byte; a C string ends at the first NUL
NAMES = st.one_of(st.none(), st.none(), st.lists(st.sampled_from(NEAR), max_size=5))
NAME = st.sampled_from(['a', 'main', 'x.y', 'a b', '.hid', 'caf\u00e9', "q'uote", 'a.b', 'Makefile', 'b'])
SPEC = st.fixed_dictionaries({'file': FILE, 'name': NAME, 'dir': st.sampled_from(['', 'd/', '/no/where/', './']), 'how': st.sampled_from(['contents', 'contents', 'disk', 'location', 'location over disk', 'contents over location']), 'names': NAMES, 'bare': st.booleans()})
ASK = st.lists(st.sampled_from(['polyglot', 'contents', 'text', 'size', 'languages', 'breakdowns', 'locs', 'loc_totals', 'licenses', 'names', 'breakdown', 'gc']), min_size=1, max_size=9)

def spec(top, n, s):
    """The file on disk as the spec asks for it; its description for the driver, and the same for the server."""
    lg, ext, text = s['file']; text = text.replace(b'\0', b'')
    name = s['name'] + ('.' + ext if ext else ''); how = s['how']
    here = os.path.join(top, 'f%d' % n); os.makedirs(here, exist_ok=True)
    path = os.path.join(here, name) if how in ('disk', 'location over disk') else s['dir'] + name
    if how in ('disk', 'location over disk'): open(path, 'wb').write(text if how == 'disk' else b'int decoy;\n// decoy\n\n')
    disk = None; mem = text if how.startswith('contents') else None
    if 'location' in how:
        disk = os.path.join(here, 'stored elsewhere')
        open(disk, 'wb').write(b'int decoy;\n' if mem is not None else text)
    q = {'path': B(path), 'bare': s['bare']}
    if mem is not None: q['contents'] = B(mem)
    if disk: q['disk'] = B(disk)
    if s['names'] is not None: q['names'] = [B(x) for x in s['names']]
    # set in the binding's order
    new = ohc.new(n, path, mem, disk, None, s['names'])
    return q, new, mem is not None

def lic(r): return [B(x) for x in r]
def brk(r): return [[B(r[k]), B(r[k + 1] or b''), B(r[k + 2] or b'')] + r[k + 3:k + 6] for k in range(0, len(r), 6)]
def locs(r): return [[B(r[k])] + r[k + 1:k + 4] + [r[k + 4], sum(r[k + 1:k + 4])] for k in range(0, len(r), 5)]
def totals(r): return [sum(r[k + i] for k in range(0, len(r), 5)) for i in (1, 2, 3)] + [sum(r[k + i] for k in range(0, len(r), 5) for i in (1, 2, 3)), sum(r[4::5])]
def deltas(r): return [[B(r[k])] + r[k + 1:k + 7] for k in range(0, len(r), 7)]
def nul(x): return '' if x is None else x

def want(ctx, news, ask):
    """What the library says, every question asked of a file of its own."""
    s = 0; reqs = []
    op = {'polyglot': 'L', 'contents': 'C', 'text': 'C', 'size': 'Z', 'languages': 'K', 'breakdowns': 'K', 'breakdown': 'K', 'locs': 'O', 'loc_totals': 'O', 'licenses': 'I', 'names': 'A'}
    for a in ask:
        if a == 'gc': reqs += [ohc.req('q'), ohc.req('q')]
        else: reqs += [news, ohc.req(op[a], 0)]
    return ctx.run(reqs)[1::2]

def answers(ctx, case):
    top = tempfile.mkdtemp(dir=ctx.scratch)
    try:
        q, new, mem = spec(top, 0, case['spec']); ask = []; counted = False
        for a in case['ask']:
            if mem and counted and a in ('contents', 'text', 'size', 'polyglot'): continue      # contents in memory are let go by counting
            counted = counted or a in COUNTING; ask.append(a)
        if not ask: raise Skip
        ref = want(ctx, new, ask)
        lang = next((r[0].decode() for a, r in zip(ask, ref) if a in ('breakdown',) and r), 'c')
        absent = case['absent']     # a language that may well not be in the file
        got = ohcrb.ruby(ctx).ask({'op': 's', 'a': q, 'ask': ['breakdown ' + (absent or lang) if a == 'breakdown' else a for a in ask]})
        for i, (a, g, r) in enumerate(zip(ask, got, ref)):
            if a == 'gc': continue
            if a == 'polyglot': w = B(r[0])
            elif a == 'contents':
                w = B(r[1] or b''); g = g or ''
            elif a == 'text':
                w = [B(r[1] or b''), 'UTF-8'] if r[1] else g
            elif a == 'size': w = r[0]
            elif a == 'languages': w = [B(r[k]) for k in range(0, len(r), 6)]
            elif a == 'breakdowns': w = brk(r)
            elif a == 'breakdown': w = next((x[:2] for x in brk(r) if x[0] == B(absent or lang)), None)
            elif a == 'locs': w = locs(r)
            elif a == 'loc_totals': w = totals(r)
            elif a == 'licenses': w = lic(r)
            else: w = [B(x) for x in r[:3]]
            check(g == w, 'question %d of %r: %s gives %r, the library %r\n%r', i, ask, a, g, w, case['spec'])
        return [case['spec']['how']] + (['nontrivial'] if any(r for a, r in zip(ask, ref) if a in ('breakdowns', 'locs', 'loc_totals', 'languages', 'breakdown')) else [])
    finally: shutil.rmtree(top, ignore_errors=True)

def diff(ctx, case):
    top = tempfile.mkdtemp(dir=ctx.scratch)
    try:
        a, na, _ = spec(top, 0, case['a']); b, nb, _ = spec(top, 1, case['b'])
        r = ctx.run([na, nb, ohc.req('D', 0, 1)])[2]
        got = ohcrb.ruby(ctx).ask({'op': 's', 'a': a, 'b': b, 'ask': ['gc', 'diff'] if case['gc'] else ['diff']})[-1]
        check(got == deltas(r), 'diff gives %r, the library %r\n%r', got, deltas(r), case)
        return ['nontrivial'] if any(any(x[1:]) for x in got) else []
    finally: shutil.rmtree(top, ignore_errors=True)

def other(s, t):
    """The second version: the first one's text with some lines gone, doubled, or of the other file."""
    lg, ext, text = s['file']; ls = text.splitlines(True); r = __import__('random').Random(t['seed'])
    ls2 = [x for l in ls for x in r.choice([[l], [l], [l], [], [l, l], [b'foo bar\n', l], [b'\n']])]
    return dict(s, file=(lg, ext, b''.join(ls2)), how=t['how'], name=s['name'])
PAIR = st.tuples(SPEC, st.fixed_dictionaries({'seed': st.integers(0, 2 ** 30), 'how': st.sampled_from(['contents', 'contents', 'disk', 'location'])}), SPEC, st.booleans(), st.integers(0, 5)).map(
    lambda t: {'a': t[0], 'b': t[2] if t[4] == 0 else other(t[0], t[1]), 'gc': t[3]})

def lists(ctx, case):
    top = tempfile.mkdtemp(dir=ctx.scratch)
    try:
        files = tree.make(top, case['tree']); args = []
        dirs = sorted({os.path.dirname(f[0]) for f in files} - {''})
        for k, j in case['args']:
            if k == 'file' and files: args.append((0, os.path.join(top, files[j % len(files)][0])))
            elif k == 'dir' and dirs: args.append((1, os.path.join(top, dirs[j % len(dirs)])))
            elif k == 'all': args.append((1, top))
            elif k == 'gone': args.append((0, os.path.join(top, 'gone.c')))
        how = case['how']
        if how in ('paths', 'files'): args = [x for x in args if x[0] == (how == 'paths')]
        q = {'op': 'l', 'how': how}
        P, F = [B(p) for k, p in args if k], [B(p) for k, p in args if not k]
        if P or how == 'paths': q['paths'] = P
        if F or how == 'files': q['files'] = F
        ordered = [x for x in args if x[0]] + [x for x in args if not x[0]]
        w = ctx.run([ohc.req('W', len(ordered), *[y for x in ordered for y in x], 1)])[0]
        n = w[0]; paths = w[1:1 + n]; loc = w[1 + n:]
        ask = [ohc.req('q')]
        for p in paths: ask += [ohc.new(0, p), ohc.req('L', 0), ohc.req('A', 0)]
        r = ctx.run(ask)[1:]
        size, names, src, rows, tot = ohcrb.ruby(ctx).ask(q)
        check(size == n, 'size %r of a list of %d files', size, n)
        wn = [B(r[3 * i + 2][1]) for i in range(n)]; ws = [[B(paths[i]), B(r[3 * i + 1][0])] for i in range(n) if r[3 * i + 1][0] is not None]
        check(sorted(names) == sorted(wn), 'each gives %r, the library %r', names, wn)
        check(sorted(src) == sorted(ws), 'each_source_file gives %r, the library %r', src, ws)
        check(sorted(rows) == sorted(locs(loc)), 'analyze_languages gives %r, the library %r', rows, locs(loc))
        check(tot == totals(loc), 'totals %r, the library %r', tot, totals(loc))
        return [how] + (['nontrivial'] if n > 1 and rows else [])
    finally: shutil.rmtree(top, ignore_errors=True)

def kept(ctx, case):
    """What was asked for stays what it was when the file or list it came from is out of reach and collected."""
    top = tempfile.mkdtemp(dir=ctx.scratch)
    try:
        q, new, _ = spec(top, 0, case['spec'])
        r = ctx.run([new, ohc.req('K', 0), new, ohc.req('O', 0), new, ohc.req('I', 0)])
        got = ohcrb.ruby(ctx).ask({'op': 'k', 'a': q})
        w = [[x[:3] for x in brk(r[1])], [x[:2] for x in locs(r[3])], lic(r[5])]
        check(got == w, 'kept after the file was collected: %r, should be %r', got, w)
        files = [os.path.join(top, 'k%d.%s' % (i, ['c', 'rb', 'jpg', 'py'][i % 4])) for i in range(case['n'])]
        for f in files: open(f, 'w').write('x = 1\n')
        got = ohcrb.ruby(ctx).ask({'op': 'K', 'how': 'files', 'files': [B(f) for f in files]})
        w = [[B(f), B(['c', 'ruby', None, 'python'][i % 4])] for i, f in enumerate(files) if i % 4 != 2]
        check(sorted(got) == sorted(w), 'files kept after their list was collected: %r, should be %r', got, w)
        return ['nontrivial'] if r[1] and w else []
    finally: shutil.rmtree(top, ignore_errors=True)

LNAMES = sorted(lang.TABLE) + ['cncpp', 'nope', 'C', '', 'c ', 'php']
def misc(ctx, case):
    r = ctx.run([ohc.req('B', n) for n in case] + [ohc.req('G', n) for n in case])
    got = ohcrb.ruby(ctx).ask({'op': 'm', 'names': [B(n) for n in case]})
    for n, g, x, y in zip(case, got, r, r[len(case):]):
        check(g[0] == (x[0] == 1), 'binary_filename?(%r) gives %r, the library %r', n, g[0], x)
        w = [B(y[1]), B(y[2]), y[3]] if y[0] is not None else None
        check(g[1] == w, 'language %r: %r, the library %r', n, g[1], w)
    return ['nontrivial'] if any(x[0] == 1 for x in r[:len(case)]) and any(y[0] is not None for y in r[len(case):]) else []

if __name__ == '__main__':
    ANY = st.one_of(st.sampled_from(LNAMES), st.tuples(st.sampled_from(['a', 'x.tar', '.', 'd/b']), st.sampled_from(['jpg', 'gz', 'c', 'PNG', 'o', 'bmp', 'java', 'svn-base', 'zip', ''])).map('.'.join))
    sys.exit(pbt.main('C21', [
        Test('answers', st.fixed_dictionaries({'spec': SPEC, 'ask': ASK, 'absent': st.sampled_from(['', '', 'c', 'java', 'r', 'd', 'script', 'html', 'objective', 'fortran', 'python', 'x', 'C', 'php ', 'xm'])}), answers, 12000),
        Test('diff', PAIR, diff, 6000),
        Test('lists', st.fixed_dictionaries({'tree': tree.TREE, 'args': st.lists(st.tuples(st.sampled_from(['file', 'file', 'dir', 'all', 'gone']), st.integers(0, 11)), max_size=4), 'how': st.sampled_from(['paths', 'files', 'add_files'])}), lists, 3000),
        Test('kept', st.fixed_dictionaries({'spec': SPEC, 'n': st.integers(0, 9)}), kept, 1500),
        Test('misc', st.lists(ANY, min_size=1, max_size=8), misc, 2500),
    ], targets=('srv', 'ruby'), rule='Source files given from memory, from disk and from another place, with and without sibling file names, asked in random order (non-trivial: a question with lines of some language); '
        'pairs of versions (some line changed); lists over generated trees (more than one file and some language); what is kept after a garbage collection; names'))
