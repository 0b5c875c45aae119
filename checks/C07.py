"""C07: raw entities lie in the file, in order and apart, and comments are found where they are."""
from _parse import *
import hypothesis.strategies as st
import emb, bisect

# Languages whose entity scanner is unfinished upstream (it leaves a comment form of its language out): only the structure is judged.
PARTIAL = {'bfpp', 'blitzmax', 'boo', 'brainfuck', 'clojure', 'coffeescript', 'crystal', 'emacslisp', 'factor', 'fortranfixed', 'haxe', 'julia', 'kotlin', 'lisp', 'lua', 'nsis', 'racket', 'ruby', 'scheme', 'vim'}
# Languages whose entity scanner assigns every byte.
TILE = {'c', 'cpp', 'csharp', 'cuda', 'ec', 'fsharp', 'genie', 'glsl', 'golang', 'kotlin', 'limbo', 'lua', 'rebol', 'rust', 'vala'}
KINDS = {b'any', b'at_rule', b'color', b'comment', b'doctype', b'element', b'element_class', b'element_id', b'entity', b'evaluator', b'identifier', b'include', b'keyword', b'line_start', b'number', b'operator', b'preproc', b'selector', b'space', b'string', b'tag', b'unit', b'url', b'value'}

def structure(text, ev, langs=None):
    pos = 0
    for l, e, a, b in ev:
        check(0 <= a < b <= len(text), 'entity %r spans %d-%d of a file of %d bytes', (l, e), a, b, len(text))
        check(a >= pos, 'entity %r at %d-%d starts before the one before it ends (%d)', (l, e), a, b, pos)
        check(e not in ENT.values() and e in KINDS, 'entity of unknown kind %r', e)
        if langs: check(l in langs, 'entity %r of language %r in a file of %r', (e, a, b), l, sorted(langs))
        if e == b'space': check(not text[a:b].strip(b' \t\r\n\f\v'), 'white space entity holds %r', text[a:b])
        pos = b

def trim(text, a, b): return (a, a + len(text[a:b].rstrip(b'\r\n \t')))
def openers(l):
    o = [b.o for b in l.block] + [x if isinstance(x, str) else x[0] for x in l.line] + [b.o if isinstance(b, lang.B) else b[0] for b in l.col0]
    return [x.lower().encode() for x in o]

def entities(ctx, case):
    text, key = case['text'], case['lang']
    r = ctx.run([ohc.new(0, 'f', text, None, key), ohc.req('P', 0, 0)])
    ev = ohc.events(r[1])
    structure(text, ev)
    if key in TILE:
        pos = 0
        for l, e, a, b in ev:
            check(a == pos, 'bytes %d-%d (%r) belong to no entity', pos, a, text[pos:a]); pos = b
        check(pos == len(text), 'bytes %d-%d (%r) belong to no entity', pos, len(text), text[pos:])
    lab = ['tiled'] if key in TILE else []
    com = case.get('comments')
    if com is None or key in PARTIAL: return lab + (['nontrivial'] if len({e[1] for e in ev}) > 1 else [])
    outside = b'\0'.join(text[a:b] for a, b in zip([0] + [c[1] for c in com], [c[0] for c in com] + [len(text)])).lower()
    if any(o in outside for o in openers(lang.TABLE[key])): return lab + ['marker in a string']
    got = [trim(text, a, b) for l, e, a, b in ev if e == b'comment']; want = [trim(text, a, b) for a, b in com]
    if got != want:
        for i in range(max(len(got), len(want))):
            g, w = got[i:i + 1], want[i:i + 1]
            if g != w: raise Violation('comment %d is %r, reported %r (%s)\n%r' % (i + 1, [text[a:b] for a, b in w], [text[a:b] for a, b in g], key, text))
    return lab + ['comments'] + (['nontrivial'] if want else [])

def embedded(ctx, case):
    text, key = case['text'], case['lang']
    r = ctx.run([ohc.new(0, 'f', text, None, key), ohc.req('P', 0, 0)])
    ev = ohc.events(r[1])
    structure(text, ev, {x.encode() for x in ({'haml', 'ruby'} if key == 'haml' else {key, emb.HOSTS[key][1]} | {k[0] for k in emb.HOSTS[key][2]})})
    lab = []
    if key not in ('coffeescript', 'haml'):      # their entity scanners do not look into embedded code
        rows, ls = case['rows'], lines_of(text)
        starts = [a for a, _ in ls]; touched = set()
        marks = [b'#', b'//', b'/*', b'<!--', b'--', b'=begin'] + ([b'%'] if key == 'metapost_with_tex' else []) + ([b"'"] if key == 'vb_aspx' else [])
        # entity scanners of these hosts do not know strings: a marker in one starts a comment for them
        if any(r[1] == 'c' and any(m in text[a:b] for m in marks) for r, (a, b) in zip(rows, ls)): return ['marker in code'] + (['nontrivial'] if len(ev) > 2 else [])
        for l, e, a, b in ev:
            if e != b'comment': continue
            i = bisect.bisect(starts, a) - 1
            touched |= set(range(i, bisect.bisect(starts, b - 1)))
            if rows[i][1] == 'm': check(rows[i][0].encode() == l, 'comment %r of line %d belongs to %s, reported as %r\n%r', text[a:b], i + 1, rows[i][0], l, text); lab = ['comments']
        if key != 'rhtml':                       # Ruby's =begin comments are left out upstream
            for j, r in enumerate(rows): check(r[1] != 'm' or j in touched, 'line %d is a comment of %s, but no comment entity touches it\n%r', j + 1, r[0], text)
    return lab + (['nontrivial'] if len(ev) > 2 else [])

PIECES = [b'/*', b'*/', b'"', b"'", b'\\', b'<', b'>', b'<?php', b'?>', b'<script type="text/javascript">', b'<style type="text/css">', b'</script>', b'</style>', b'<!--', b'-->', b'(*', b'*)', b'{-', b'-}', b'#|', b'|#',
          b'=begin\n', b'=end\n', b'"""', b"''", b'<%', b'%>', b'${', b'}', b'{', b'`', b'\n', b'\n', b'\r\n', b' ', b'\t', b'x', b'12', b'1.5e3', b'0x1f', b'//', b'#', b'#define x', b'--', b'%', b';', b'!', b'btex', b'etex',
          b'rem ', b'end rem', b'%{', b'%}', b'[[', b']]', b'R"x(', b')x"', b'\\\n', b'\x01', b'\xff', b'\xc3\xa9', b'abc_1', b'class', b'if', b'==', b'->', b'::', b'::lang=']
SOUP = st.tuples(st.sampled_from(sorted(set(lang.TABLE) | set(emb.HOSTS) | {'haml'})), st.lists(st.sampled_from(PIECES), min_size=1, max_size=40)).map(lambda d: {'lang': d[0], 'text': b''.join(d[1])})

if __name__ == '__main__':
    sys.exit(pbt.main('C07', [
        Test('plain', lang.docs(eols=('\n', '\n', '\r\n')), entities, 16000),
        Test('embedded', emb.docs(), embedded, 6000),
        Test('soup', SOUP, entities, 14000),
    ], rule='Generated files of every language, and arbitrary token soups; non-trivial: a comment known by construction (plain), more than two entities (embedded) or two kinds of them (soup)'))
