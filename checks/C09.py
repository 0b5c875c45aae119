"""C09: the language of a file comes from its extension, else its mode line, else its name, else its contents; binary files have none."""
from _parse import *
import hypothesis.strategies as st
import detmodel, dettables

EXT, FILENAMES, LNAMES = dettables.EXT, dettables.FILENAMES, dettables.NAMES
UNK = ['xyzzy', 'zz', 'unknown', 'p', 'pyx', 'cc1', 'jpgg', 'hs2', 'py ', 'c~', 'bak', 'orig', '0', 'cplusplus', 'mak', 'mp33', 'javax', 'rb_', '\u00e9', 'jav', 'htmlx', 'gz2']
STEM = ['foo', 'foo', 'main', 'x.y', 'Makefile', 'c', 'py', 'README', 'a b', '.hidden', 'core', 'tar', 'x.c', 'x.jpg', 'f-1']
def variants(e): return sorted({e, e.upper(), e.capitalize(), e[:-1] + e[-1:].upper(), e.swapcase()})
WORDS = sorted(LNAMES) + sorted(EXT) + ['C', 'C++', 'Ruby', 'PYTHON', 'Emacs-Lisp', 'foo', 'text', 'Shell', 'Java', 'JavaScript', 'klingon', 'c++', 'Lisp', 'nroff', 'make', 'BASH', 'Objective_C', 'ObjC', 'cs', 'h', 'jpg', 'Modelica', 'modelica', 'models', 'm', 'Jpg']
LEAD = ['', '', '', '# ', '// ', '/* ', ';;; ', '<!-- ', '"', 'x ', '% ', '\t', '#', 'rem ']
FORM = ['-*- %s -*-', '-*- mode: %s -*-', '-*- Mode: %s; tab-width: 4 -*-', '-*-%s-*-', '-*- MODE:%s -*-', '-*-\tmode: \t%s\t-*-', '-*- %s; coding: utf-8 -*-', '-*- mode %s -*-', '-*- mode:%s; -*-', '-*- %s', '-*-  %s  ', '- *- %s -*-', '-- %s --', '*-* mode: %s']
SHE = ['#!/bin/sh', '#!/bin/bash', '#!/usr/bin/perl -w', '#!/usr/bin/env python', '#!/usr/bin/python3', '#!/usr/bin/env ruby', '#!/usr/bin/php', '#!/usr/bin/lua', '#!/usr/bin/awk -f', '#! /bin/sh', '#!/usr/bin/ruby', '#! /usr/bin/python', '#!/opt/local/bin/python -O', '#!/usr/local/bin/ruby -w', '#!/usr/bin/gawk -f']
BODY = ['plain words here', 'and some more text', 'x = 1', '', 'the end', '-*- python -*-', 'class foo']

@st.composite
def case(draw):
    k = draw(st.integers(0, 9))
    known = sorted(EXT)
    if k < 4:
        e = draw(st.sampled_from(known)); e = draw(st.sampled_from(variants(e))) if draw(st.booleans()) else e
        name = draw(st.sampled_from(STEM)) + '.' + e
    elif k < 7: name = draw(st.sampled_from(STEM)) + draw(st.sampled_from(['', '', '.', '.' + draw(st.sampled_from(UNK))]))
    else:
        name = draw(st.sampled_from(sorted(FILENAMES)))
        j = draw(st.integers(0, 5))
        name = name.upper() if j == 4 else name.swapcase() if j == 5 else name + 'x' if j == 3 else name
    L = []
    if draw(st.integers(0, 2)) == 2: L += draw(st.lists(st.sampled_from(SHE), min_size=1, max_size=2))
    elif draw(st.integers(0, 9)) == 9: L.append('<?xml version="1.0"?>')
    if draw(st.integers(0, 2)): L.append(draw(st.sampled_from(LEAD)) + draw(st.sampled_from(FORM)) % draw(st.sampled_from(WORDS)) + draw(st.sampled_from(['', ' */', ' more words'])))
    if draw(st.integers(0, 3)) == 3: L.insert(0, draw(st.sampled_from(BODY)))
    L += draw(st.lists(st.sampled_from(BODY), max_size=4))
    nl = draw(st.sampled_from(['\n', '\n', '\n', '\r\n']))
    text = (nl.join(L) + nl).encode()
    return {'path': draw(st.sampled_from(['', '', 'dir/', '/a/b.c/', 'x\\', './', 'Makefile/', 'a.jpg/'])) + name, 'text': text, 'how': draw(st.sampled_from(['memory', 'memory', 'disk', 'elsewhere']))}

def order(ctx, case):
    path, text = case['path'], case['text']
    if '\r\n' in text.decode() and not detmodel.split(path)[1] and text.startswith((b'#!', b'<')): raise Skip     # what libmagic makes of CRLF scripts is its own
    try: want = detmodel.detect(path, text)
    except detmodel.Unsure: raise Skip
    disk = None
    if case['how'] == 'elsewhere':
        # the name counts, not the place where the contents lie
        disk = os.path.join(ctx.scratch, 'stored.rb'); open(disk, 'wb').write(text)
    elif case['how'] == 'disk':
        if '\\' in path or '/' in path: raise Skip
        d = os.path.join(ctx.scratch, 'd'); os.makedirs(d, exist_ok=True)
        path = os.path.join(d, path)
        if len(os.path.basename(path).encode()) > 200: raise Skip
        open(path, 'wb').write(text)
    try: got = ctx.run([ohc.new(0, path, text if case['how'] == 'memory' else None, disk), ohc.req('L', 0), ohc.req('L', 0), ohc.req('B', case['path'])])
    finally:
        if case['how'] == 'disk': os.unlink(path)
    check(got[1] == got[2], '%s: detected as %r, then as %r', path, got[1], got[2])
    g = got[1][0].decode() if got[1][0] else None
    check(g == want, '%s (%s) is detected as %r, should be %r:\n%s', path, case['how'], g, want, text.decode('latin-1'))
    check(got[3] == [int(detmodel.binary(case['path']))], '%s: binary by its name: %r', case['path'], got[3])
    name, ext = detmodel.split(case['path'])
    by = 'extension' if EXT.get(ext) or EXT.get(ext.lower()) else 'mode line' if b'-*-' in text.split(b'\n')[0] + (b''.join(text.split(b'\n')[:3]) if text.startswith(b'#!') else b'') else 'file name' if name in FILENAMES else 'contents'
    return [by, case['how']] + (['none'] if want is None else []) + (['nontrivial'] if want or by == 'extension' else [])

def every(ctx, case):
    """Each extension, whatever its case, the directory and the contents, means what the table says."""
    e = sorted(EXT)[case['i'] % len(EXT)]; v = EXT[e]
    if v[0] == '?': raise Skip
    exts = [e] + [x for x in variants(e) if x not in EXT]
    text = case['text'] or b'x'
    reqs = []
    for i, x in enumerate(exts): reqs += [ohc.new(i, case['dir'] + case['stem'] + '.' + x, text), ohc.req('L', i), ohc.req('B', case['dir'] + case['stem'] + '.' + x)]
    r = ctx.run(reqs)
    for i, x in enumerate(exts):
        g = r[3 * i + 1][0]; w = None if v == '!' else v.encode()
        check(g == w, 'a file with extension %r is detected as %r, should be %r: %r', x, g, w, text[:300])
        check(r[3 * i + 2] == [int(v == '!')], 'extension %r is binary: %r', x, r[3 * i + 2])
    return ['nontrivial', 'binary' if v == '!' else 'source']

TEXT = st.one_of(st.sampled_from([b'#!/bin/sh\n', b'-*- python -*-\n', b'<?xml version="1.0"?>\n', b'plain\n', b'\x89PNG\r\n\x1a\n', b'#include <vector>\n']), st.binary(max_size=40).map(lambda b: b.replace(b'\0', b'\1')))
if __name__ == '__main__':
    sys.exit(pbt.main('C09', [
        Test('order', case(), order, 30000),
        Test('every', st.fixed_dictionaries({'i': st.integers(0, 10**4), 'text': TEXT, 'dir': st.sampled_from(['', 'a/', '/x.c/', 'b\\']), 'stem': st.sampled_from(STEM)}), every, 6000),
    ], rule='Paths with known (in any case), unknown and no extensions and special names, and contents with mode lines, interpreter lines and markup, in memory, on disk or under another name; non-trivial: a language is found, or '
            'the extension decides'))
