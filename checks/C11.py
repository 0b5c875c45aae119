"""C11: every language that can be detected or named is known and can be counted, and nothing else is."""
from _parse import *
import hypothesis.strategies as st
import dettables, detmodel, emb
import C09, C10

META = dettables.META
KEYS = sorted(META)

def lookup(ctx, case):
    names = [k.encode('utf-8', 'surrogateescape').replace(b'\0', b'') for k in case]
    r = ctx.run([ohc.req('G', n) for n in names])
    for n, g in zip(names, r):
        k = n.decode('utf-8', 'surrogateescape')
        if k in META:
            nice, cat = META[k]; lg = dettables.NAMES[k]
            check(g[:4] == [k.encode(), lg.encode(), nice.encode(), cat], 'language %r is known as %r, should be %r', k, g[:4], (k, lg, nice, cat))
            check(g[4] == (1 if k == lg else g[4]), 'language %r cannot be counted', k)
        else:
            check(g[0] is None, '%r is known as a language: %r', k, g)
            check(g[-1] == 0, '%r can be counted but is no language', k)
    return ['nontrivial'] if any(n.decode('utf-8', 'replace') in META for n in names) and not all(n.decode('utf-8', 'replace') in META for n in names) else []

def counted(ctx, case):
    """Whatever names, extension and contents make of a file: a detected language is known, and its text is counted."""
    path, text = case['path'], case['text'].replace(b'\0', b'\1')
    # a section opened by the last bytes of a file without a final newline is not closed: outside the domain
    if b'<' in text or b"''" in text: text += b'\n'
    r = ctx.run([ohc.new(0, path, text), ohc.req('L', 0), ohc.req('P', 0, 1), ohc.req('j', 0, 1, 1), ohc.req('j', 0, 0, 0), ohc.req('O', 0)])
    lg = r[1][0]; ev = ohc.events(r[2]); loc = [r[5][i:i + 5] for i in range(0, len(r[5]), 5)]
    check(r[3] == [int(lg is not None), len(ev)] and r[4] == [int(lg is not None), 0], '%s: a scanner was found %r and without a callback %r, for %r and %d lines', path, r[3], r[4], lg, len(ev))
    if lg is None:
        check(not ev and not loc, '%s has no language, but lines %r and counts %r', path, ev[:3], loc)
        return ['none']
    check(lg.decode() in META and dettables.NAMES[lg.decode()] == lg.decode(), '%s is detected as %r, which is no language', path, lg)
    if text.strip(): check(ev and any(e[1] != b'lblank' for e in ev) or not text.strip(b' \t\r\n\f\v$'), '%s is detected as %r, but %r has no lines', path, lg, text[:300])
    for e in ev: check(e[0].decode() in META, '%s: lines of an unknown language %r', path, e[0])
    check(bool(loc) == bool(ev) and {l[0] for l in loc} == {e[0] for e in ev}, '%s: lines of %r, counts %r', path, {e[0] for e in ev}, loc)
    for l in loc: check(sum(l[1:4]) > 0 and l[4] == 1, '%s: counts %r', path, l)
    return ['lang:' + lg.decode(), 'nontrivial']

def start(ctx, case):
    """One line of words, as code and as a comment, in every language."""
    key = case['lang']; l = lang.TABLE[key]
    ind = case['ind'] if key not in ('fortranfixed',) else ''
    word = l.code[case['w'] % len(l.code)]
    text = ((ind + (l.lead or '') + word + '\n') * case['n'] + '\n' * case['m']).encode()
    shown = lang.REPORTED.get(key, key)
    r = ctx.run([ohc.new(0, 'f', text, None, key), ohc.req('O', 0), ohc.req('G', shown)])
    check(r[1] == [shown.encode(), case['n'], 0, case['m'], 1], '%s: %r counts as %r, should be %d code and %d blank', key, text, r[1], case['n'], case['m'])
    check(r[2][0] is not None, '%s is no known language', shown)
    return ['nontrivial'] if case['n'] > 1 else []

def near(k):
    return st.sampled_from([k, k, k + 'x', k[:-1], k.upper(), k.capitalize(), ' ' + k, k + ' ', k + '_x', k[::-1], k + k, k[1:], k.replace('_', ''), k.replace('_', '-'), META[k][0], k + '\n'])
NAME = st.one_of(st.sampled_from(KEYS).flatmap(near), st.sampled_from(KEYS).flatmap(near), st.text(max_size=12), st.sampled_from(sorted(dettables.EXT)))
PATH = st.tuples(st.sampled_from(['', 'd/']), st.one_of(st.tuples(st.sampled_from(['foo', 'a.b', 'Makefile']), st.sampled_from(sorted(dettables.EXT))).map('.'.join), st.sampled_from(sorted(dettables.FILENAMES) + ['foo', 'x.yyy', 'README']))).map(''.join)
LINE = st.one_of(st.sampled_from(sorted({a for v in C10.A.values() for a in v})), st.sampled_from([b'-*- %s -*-' % k.encode() for k in KEYS]), st.binary(max_size=12), st.sampled_from([b'foo', b'x', b'// x', b'# y', b'<a>', b'"s"']))
if __name__ == '__main__':
    sys.exit(pbt.main('C11', [
        Test('lookup', st.lists(NAME, min_size=1, max_size=12), lookup, 6000),
        Test('counted', st.fixed_dictionaries({'path': PATH, 'text': st.lists(LINE, max_size=6).map(b'\n'.join)}), counted, 20000),
        Test('start', st.fixed_dictionaries({'lang': st.sampled_from(sorted(lang.TABLE)), 'ind': st.sampled_from(['', ' ', '\t']), 'w': st.integers(0, 40), 'n': st.integers(1, 4), 'm': st.integers(0, 3)}), start, 4000),
    ], rule='Names of languages and near misses; files with every extension and special name whose contents are anything; lines of code of every language; non-trivial: names that are and are not languages, a detected language, '
            'more than one line'))
