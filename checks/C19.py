"""C19: a source file gives the same answers from disk and from memory, in whatever order they are asked for."""
from _parse import *
import hypothesis.strategies as st
import tree, emb, tempfile, shutil

OPS = {'language': lambda s: ohc.req('L', s), 'size': lambda s: ohc.req('Z', s), 'contents': lambda s: ohc.req('C', s), 'lines': lambda s: ohc.req('P', s, 1), 'entities': lambda s: ohc.req('P', s, 0),
       'breakdown': lambda s: ohc.req('K', s), 'counts': lambda s: ohc.req('O', s), 'licences': lambda s: ohc.req('I', s), 'parse': lambda s: ohc.req('p', s)}
COUNTING = ('breakdown', 'counts', 'licences', 'parse')

def answers(ctx, case):
    """Order of questions and origin of the contents."""
    lg, ext, text = case['file']; top = tempfile.mkdtemp(dir=ctx.scratch)
    try:
        name = case['name'] + ('.' + ext if ext else '')
        p = os.path.join(top, name); q = os.path.join(top, 'stored elsewhere.bin')
        open(p, 'wb').write(text); open(q, 'wb').write(text)
        gone = os.path.join(top, 'gone', name); decoy = os.path.join(top, 'sub'); os.mkdir(decoy)
        open(os.path.join(decoy, name), 'wb').write(b'int decoy;\n// decoy\n\n\n')
        how = {'disk': [ohc.new(0, p)], 'memory': [ohc.new(0, gone, text)], 'diskpath': [ohc.new(0, gone, None, q)], 'diskpath over file': [ohc.new(0, os.path.join(decoy, name), None, q)],
               'memory over disk': [ohc.new(0, os.path.join(decoy, name), text)], 'set later': [ohc.new(0, gone, b'old text\n'), ohc.req('E', 0, text)], 'diskpath twice': [ohc.new(0, gone, None, os.path.join(decoy, name)), ohc.req('h', 0, q)]}
        # one question each, of a file of its own
        ref = {o: ctx.run([ohc.new(0, p), f(0)])[1] for o, f in OPS.items()}
        check(ref['contents'] == ([len(text), text] if text else [0, None]), 'contents of a file of %d bytes: %r', len(text), ref['contents'])
        check(ref['size'] == [len(text)], 'size %r of a file of %d bytes', ref['size'], len(text))
        if not text: check(not ref['lines'] and not ref['counts'] and not ref['breakdown'] and not ref['licences'], 'an empty file has %r', ref)
        kind = case['how']; reqs = list(how[kind]); k = len(reqs); counted = False; asked = []
        for o in case['ask']:
            # contents in memory are let go by counting
            if counted and 'memory' in kind or counted and kind == 'set later':
                if o in ('contents', 'size', 'lines', 'entities', 'language'): continue
            asked.append(o); reqs.append(OPS[o](0)); counted = counted or o in COUNTING
        r = ctx.run(reqs)[k:]
        for i, (o, g) in enumerate(zip(asked, r)):
            w = ref[o]
            if not text and o == 'contents' and g == [0, b'']: continue
            check(g == w, '%s, question %d of %r: %s gives %r, a fresh file on disk %r\nfile %s %r', kind, i, asked, o, g[:40], w[:40], name, text[:600])
        return [kind] + (['nontrivial'] if len(set(asked)) > 2 and len(ref['lines']) > 4 else [])
    finally: shutil.rmtree(top, ignore_errors=True)

def enlarge(t):
    """A file of one language over some blocks of a disk, also of exactly so many bytes."""
    (lg, ext, text), size, off = t
    if not text: text = b'x\n'
    if not text.endswith(b'\n'): text += b'\n'
    out = text * (size // len(text) + 1)
    out = out[:out.rfind(b'\n', 0, size) + 1]
    return (lg, ext, out + b'\n' * max(0, size + off - len(out)))

def override(ctx, case):
    """A language set by hand is the one used; a name that is none is ignored."""
    lg, ext, text = case['file']; other = case['other']; bogus = case['bogus']
    r = ctx.run([ohc.new(0, 'dir/f.' + (ext or 'zz'), text), ohc.req('H', 0, bogus), ohc.req('H', 0, other), ohc.req('H', 0, bogus), ohc.req('L', 0), ohc.req('P', 0, 1), ohc.req('O', 0),
                 ohc.new(1, 'g.jpg', text, None, other), ohc.req('P', 1, 1), ohc.req('O', 1),
                 ohc.new(2, 'dir/f.' + (ext or 'zz'), text), ohc.req('H', 2, bogus), ohc.req('L', 2), ohc.new(3, 'dir/f.' + (ext or 'zz'), text), ohc.req('L', 3), ohc.req('H', 3, other), ohc.req('P', 3, 1)])
    check(r[4] == [other.encode()], 'language set to %s, reported %r', other, r[4])
    check(r[5] == r[8] == r[16] and r[6] == r[9], 'language set to %s: the file is analysed as %r, another of the same text as %r / %r', other, r[5][:30], r[8][:30], r[16][:30])
    check(r[12] == r[14], 'the unknown language name %r changed the language from %r to %r', bogus, r[14], r[12])
    return ['nontrivial'] if r[5] and other != lg else []

def missing(ctx, case):
    """A file that cannot be read has no lines, whatever is asked, and a diff against it is the other file."""
    lg, ext, text = case['file']; top = tempfile.mkdtemp(dir=ctx.scratch)
    try:
        bad = {'missing': os.path.join(top, 'no.' + (ext or 'c')), 'directory': top, 'under a file': os.path.join(top, 'f', 'x.c'), 'empty': os.path.join(top, 'e.' + (ext or 'c'))}[case['kind']]
        open(os.path.join(top, 'f'), 'wb').write(b'x'); open(os.path.join(top, 'e.' + (ext or 'c')), 'wb').close()
        key = lg or 'c'
        reqs = [ohc.new(0, bad, None, None, key)] + [OPS[o](0) for o in case['ask']] + [ohc.new(1, bad, None, None, key), ohc.new(2, 'f', text, None, key), ohc.req('D', 1, 2), ohc.req('D', 2, 1), ohc.req('O', 2), ohc.req('Z', 1)]
        r = ctx.run(reqs)
        for o, g in zip(case['ask'], r[1:]):
            w = {'language': [key.encode()], 'size': [0]}.get(o, [])
            check(g == w or o == 'contents', '%s: %s gives %r', case['kind'], o, g)
        n = len(case['ask']) + 3; D, B, O = r[n], r[n + 1], r[n + 2]
        loc = {O[i]: O[i + 1:i + 4] for i in range(0, len(O), 5)}
        for i in range(0, len(D), 7):
            l = D[i]; c = loc.get(l, [0, 0, 0])
            check(D[i + 1:i + 7] == [c[0], 0, c[1], 0, c[2], 0], 'from an unreadable file to one with %r: %r', c, D[i:i + 7])
            check(B[i:i + 7] == [l, 0, c[0], 0, c[1], 0, c[2]], 'to an unreadable file from one with %r: %r', c, B[i:i + 7])
        check([D[i] for i in range(0, len(D), 7)] == [O[i] for i in range(0, len(O), 5)], 'languages %r / %r', D, O)
        check(r[n + 3] == [0], 'size of an unreadable file: %r', r[n + 3])
        return ['nontrivial', case['kind']] if O else []
    finally: shutil.rmtree(top, ignore_errors=True)

def path(ctx, case):
    """A path is taken apart at its last separator and at the last dot after it."""
    p = ''.join(case).encode('utf-8', 'surrogateescape').replace(b'\0', b'0')
    i = max(p.rfind(b'/'), p.rfind(b'\\')); name = p[i + 1:]; j = name.rfind(b'.')
    ext = name[j + 1:] if j >= 0 else b''
    r = ctx.run([ohc.new(0, p), ohc.req('A', 0)])[1]
    want = [p, name, ext, max(i, 0), i + 1, i + 1 + j + 1 if j >= 0 else len(p)]
    check(r == want, 'path %r is taken apart as %r, should be %r', p, r, want)
    return ['nontrivial'] if i >= 0 and j >= 0 else []

FILE = tree.FILES
if __name__ == '__main__':
    sys.exit(pbt.main('C19', [
        Test('answers', st.fixed_dictionaries({'file': FILE, 'name': st.sampled_from(['f', 'a b', '.h', 'x.y']), 'how': st.sampled_from(['disk', 'memory', 'diskpath', 'diskpath over file', 'memory over disk', 'set later', 'diskpath twice']),
                                               'ask': st.lists(st.sampled_from(sorted(OPS)), min_size=2, max_size=8)}), answers, 6000),
        Test('large', st.fixed_dictionaries({'file': st.tuples(FILE, st.sampled_from([4096, 8192, 32768, 65536, 131072]), st.sampled_from([-1, 0, 0, 1, 777])).map(enlarge), 'name': st.just('f'), 'how': st.sampled_from(['disk', 'memory', 'diskpath', 'memory over disk', 'set later', 'diskpath twice']),
                                             'ask': st.lists(st.sampled_from(sorted(OPS)), min_size=3, max_size=5)}), answers, 300),
        Test('override', st.fixed_dictionaries({'file': FILE, 'other': st.sampled_from(sorted(tree.EXT)), 'bogus': st.sampled_from(['', 'C', 'klingon', 'c ', 'pythons', 'Ruby', 'h', 'py'])}), override, 4000),
        Test('missing', st.fixed_dictionaries({'file': FILE, 'kind': st.sampled_from(['missing', 'directory', 'under a file', 'empty']), 'ask': st.lists(st.sampled_from(sorted(set(OPS) - {'parse'})), max_size=5)}), missing, 3000),
        Test('path', st.lists(st.one_of(st.sampled_from(['/', '\\', '.', '..', './', 'a', 'b.c', 'dir', '.h', 'x.tar.gz', ' ', '//', 'C:\\', 'caf\u00e9']), st.text(max_size=3)), max_size=8), path, 4000),
    ], rule='Files stored on disk, given in memory or under another path, and questions in any order; languages set by hand; unreadable and empty files; files of 4 to 128 kB at and around block sizes; paths. Non-trivial: more than two different questions of a file with lines, a '
            'language other than the detected one, a readable other side, a path with a directory and an extension'))
