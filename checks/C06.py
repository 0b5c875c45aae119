"""C06: no file, whatever its bytes, and no path makes the library crash, hang, read outside its memory or report outside the file."""
from _parse import *
import hypothesis.strategies as st
import emb, subprocess, tempfile, shutil, glob

NAMES = [l.strip().strip('",') for l in open(os.path.join(pbt.VERIF, 'lib', 'fuzzlangs.inc')).read().replace(',', ',\n').splitlines() if l.strip()]
PIECES = [b'/*', b'*/', b'"', b"'", b'\\', b'<', b'>', b'<?php', b'?>', b'<?', b'<script type="text/javascript">', b'<style type="text/css">', b'</script>', b'</style>', b'<mx:Script>', b'</mx:Script>', b'<!--', b'-->', b'(*', b'*)',
          b'{-', b'-}', b'#|', b'|#', b'=begin', b'=end', b'=pod\n', b'=cut\n', b'"""', b"'''", b"''", b'<%', b'%>', b'<?cs', b'${', b'}', b'{', b'`', b'\n', b'\n', b'\n', b'\r\n', b'\r', b'\f', b'\v', b' ', b'\t', b'x', b'12', b'1.5e3',
          b'0x1f', b'//', b'#', b'#define x', b'#include "a.m"', b'--', b'%', b'%%', b';', b'!', b'btex ', b'etex', b'verbatimtex', b'rem ', b'REM', b'end rem', b'%{', b'%}', b'[[', b']]', b'--[==[', b']==]', b'R"x(', b')x"', b'\\\n',
          b'\\\r\n', b'\x01', b'\x7f', b'\xff', b'\xc3\xa9', b'abc_1', b'class', b'if', b'==', b'->', b'::', b'q{', b'%w(', b'<<EOS', b'dnl ', b'/', b'/a\\/b/', b'/+', b'+/', b'nested', b'@"', b"$'", b'-*- mode: c -*-', b'-*-', b'#!/usr/bin/perl']
SOUP = st.lists(st.one_of(st.sampled_from(PIECES), st.sampled_from(PIECES), st.sampled_from(PIECES), st.binary(min_size=1, max_size=6)), min_size=0, max_size=60).map(b''.join)
BYTES = st.one_of(SOUP, SOUP, st.binary(max_size=200))
def rep(d):
    # unterminated constructs are scanned again from every start, so time grows as the square of the length
    a, n, b = d
    return a * min(n, 30000 // max(1, len(a)) + 1) + b
LONG = st.tuples(st.one_of(st.sampled_from(PIECES), st.binary(min_size=1, max_size=4), st.lists(st.sampled_from(PIECES), min_size=2, max_size=4).map(b''.join)), st.sampled_from([79, 80, 81, 82, 255, 1000, 4096, 20000]), SOUP).map(rep)

def bounds(text, ev, what):
    n = len(text)
    for l, e, a, b in ev:
        check(l is not None and e is not None and 0 <= a <= b <= n, '%s: %r reported at %d-%d of %d bytes', what, (l, e), a, b, n)

def parse(ctx, case):
    text = case['text'].replace(b'\0', b'\1'); key = case['lang']
    r = ctx.run([ohc.new(0, 'f', text, None, key), ohc.req('P', 0, 1), ohc.req('P', 0, 0), ohc.req('K', 0), ohc.req('O', 0), ohc.new(1, 'f', case['other'].replace(b'\0', b'\1'), None, key)] + ([ohc.req('I', 0)] if case['lic'] else [ohc.req('D', 0, 1), ohc.req('D', 1, 0)]))
    e1, e2 = ohc.events(r[1]), ohc.events(r[2])
    bounds(text, e1, key + ' lines'); bounds(text, e2, key + ' entities')
    for l, e, a, b in e1: check(e in RENT, '%s: unknown line kind %r', key, e)
    for i in range(0, len(r[4]), 5): check(all(x >= 0 for x in r[4][i + 1:i + 5]), 'negative count %r', r[4][i:i + 5])
    return ['entities' if e2 else 'lines only'] + (['nontrivial'] if len(e1) > 1 else [])

EXTS = ['m', 'h', 'b', 'bas', 'bi', 'cs', 'dat', 'def', 'fs', 'f', 'for', 'in', 'h.in', 'm.in', 'inc', 'mod', 'pp', 'pl', 'pro', 'r', 'rs', 'st', 'asx', 'aspx', 'ascx', '', '', 'H', 'IN', 'in.in', 'c', 'weird', 'tar.gz', 'x' * 90, 'au', 'JPG', '\xe9']
NAME = st.one_of(st.tuples(st.sampled_from(['a', 'foo', '', '.', '..', 'Makefile', 'x.y', 'a b', 'C', 'dir.m', '-*-', 'n' * 120]), st.sampled_from(EXTS), st.sampled_from(['', '', 'd/', '/', 'a.b/', 'c\\', './/', '../'])).map(lambda d: d[2] + d[0] + ('.' + d[1] if d[1] else '')),
                 st.text(st.characters(min_codepoint=1, max_codepoint=255), max_size=12))
MODES = st.sampled_from([b'-*- ', b'-*-', b'#! -*- c', b'// -*- mode: ', b'/* -*-C-*- */', b'-*- mode:', b'# -*- ruby -*-', b'-*- x;', b'-*- ' + b'q' * 100, b'#!/bin/sh\n# -*- perl', b'#!', b'#!\n', b'#!\r\n#!', b'<%@ Page ', b'<%@ Page Language="VB" %>', b'<%@%>', b'<%@', b'include "', b'include "a', b'include "x";',
                          b'include  ', b'implement', b'12', b'12 x', b': ', b':  fn (', b'&', b'& ', b'(*', b'@interface', b'#include <', b'#include <vector>', b'#include "a.hpp"', b'class', b'namespace x', b'template', b'rebol', b'REBOL', b'#pragma version', b'?php', b':-', b'SOURCES', b'CONFIG+=', b'|let', b'\\ ', b' ' * 90 + b'class', b'X' * 79 + b'Y', b'x' * 80, b'x' * 81, b'x' * 82, b'      x&', b'\t1', b'C'])
CONT = st.lists(st.one_of(MODES, MODES, st.sampled_from([b'\n', b'\r\n', b' ', b'\n\n', b'x']), st.sampled_from(PIECES)), max_size=7).map(b''.join)

import C10
@st.composite
def broken(draw):
    # files of the extensions several languages share, cut off anywhere
    id = draw(st.sampled_from(sorted(C10.A)))
    text = draw(st.sampled_from([b'\n', b'\n', b'\r\n', b' '])).join(draw(st.lists(st.sampled_from(C10.A[id]), min_size=1, max_size=5)))
    ext = draw(st.sampled_from(C10.BYID.get(id, [id])))
    return {'path': draw(st.sampled_from(['foo', 'foo', 'a.h', ''])) + '.' + ext, 'text': text[:draw(st.integers(1, max(1, len(text))))], 'names': draw(st.one_of(st.none(), st.lists(st.sampled_from(C10.NAMES), max_size=3)))}

def detect(ctx, case):
    name = case['path'].replace('\0', ''); text = case['text'].replace(b'\0', b'\1')
    enc = name.encode('latin-1', 'replace')
    reqs = [ohc.new(0, enc, text, None, None, None if case['names'] is None else [n.replace('\0', '').encode('latin-1', 'replace') for n in case['names']]), ohc.req('A', 0), ohc.req('L', 0), ohc.req('L', 0), ohc.req('B', enc), ohc.req('O', 0)]
    r = ctx.run(reqs)
    lg = r[2][0]
    check(r[3][0] == lg, 'the language is %r, then %r', lg, r[3][0])
    check(lg is None or lg.decode('latin-1') in NAMES, 'detected language %r is none of the supported ones', lg)
    check(r[4][0] in (0, 1), 'binary: %r', r[4][0])
    if lg is None: check(not r[5], 'a file of no language has line counts: %r', r[5])
    return ['language' if lg else 'none'] + (['nontrivial'] if lg and text else [])

ODD = ['a.c', 'b.h', 'c.html', 'd.php', 'e.m', 'noext', 'f.rb', 'g.dat', 'h.in', 'i.pl', 'j.aspx', 'k.f', 'l.nix', 'm.mp', 'n.coffee', 'Makefile', 'o.jpg', 'p.lua', 'q.pp', 'r.bas']
FLAGS = ['-a', '-d', '-i', '-l', '-re', '-s', '--annotate', '--detect', '--individual', '--license', '--summary', None, '-h']
def command(ctx, case):
    d = tempfile.mkdtemp(dir=ctx.scratch)
    try:
        for i, (n, b, how) in enumerate(case['files']):
            p = os.path.join(d, '%d' % i if how == 'dir' else '', n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if how == 'noread': open(p, 'wb').write(b); os.chmod(p, 0)
            elif how == 'link' : 
                if not os.path.lexists(p): os.symlink('nowhere', p)
            else:
                if os.path.islink(p): os.unlink(p)
                open(p, 'wb').write(b)
        env = {'PATH': os.environ['PATH'], 'LC_ALL': 'C', 'TMPDIR': d, 'ASAN_OPTIONS': 'detect_leaks=0:exitcode=77:symbolize=0'}
        args = [ctx.cliasan] + ([case['flag']] if case['flag'] else []) + (['.'] if case['how'] == 'dot' else [] if case['how'] == 'none' else sorted(os.listdir(d)) + ['missing', ''])
        r = subprocess.run(args, cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=200)
        check(r.returncode == 0, 'ohcount %s on %r ended with status %d: %s', args[1:], case['files'], r.returncode, r.stderr[-1500:].decode('latin-1'))
    except subprocess.TimeoutExpired: raise Violation('ohcount %s on %r did not end' % (args[1:], case['files']))
    finally: shutil.rmtree(d, ignore_errors=True)
    return [str(case['flag'])] + (['nontrivial'] if r.stdout.count(b'\n') > 2 else [])

CORPUS = []
def corpus():
    if not CORPUS:
        for f in sorted(glob.glob(os.environ.get('OHC_REPO', '/repo') + '/test/src_dir/*')):
            b = open(f, 'rb').read()
            if b and len(b) < 20000: CORPUS.append((os.path.basename(f), b))
    return CORPUS
def mutate(ctx, case):
    """A real source with pieces cut out, doubled, spliced or overwritten."""
    C = corpus(); name, t = C[case['i'] % len(C)]; o = C[case['j'] % len(C)][1]
    t = bytearray(t)
    for k, a, b, p in case['edits']:
        a %= len(t) + 1; b = a + b % 40
        if k == 0: del t[a:b]
        elif k == 1: t[a:a] = t[a:b] * 2
        elif k == 2: t[a:a] = p
        elif k == 3: t[a:b] = o[a % max(1, len(o)):][:b - a]
        else: del t[a:]
    r = ctx.run([ohc.new(0, name, bytes(t).replace(b'\0', b'\1'), None, None), ohc.req('L', 0)])
    lg = r[1][0]
    if lg is None: raise Skip
    return parse(ctx, {'lang': lg.decode(), 'text': bytes(t), 'other': case['other'], 'lic': case['i'] % 16 == 0})

def extra(bd, work, tier, seed):
    """Coverage-guided search with libFuzzer over the same entry points."""
    exe = os.path.join(bd, 'bin', 'ohfuzz')
    if not os.path.exists(exe): return {}
    d = os.path.join(work, 'fuzz'); os.mkdir(d)
    secs = 40 if tier == 'quick' else int(os.environ.get('OHC_FUZZ_S', '400'))
    procs = []
    for i in range(8):
        w = os.path.join(d, '%d' % i); os.makedirs(w + '/corpus')
        for k, (n, b) in enumerate(corpus()):
            if (k + i) % 8 == 0: open('%s/corpus/s%d' % (w, k), 'wb').write(bytes([(k * 7 + i) % 251, i * 3]) + b[:500])
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:symbolize=0:allocator_may_return_null=1', TMPDIR=w)
        procs.append((w, subprocess.Popen([exe, 'corpus', '-seed=%d' % (seed * 100 + i + 1), '-max_total_time=%d' % secs, '-max_len=600', '-timeout=20', '-rss_limit_mb=3000', '-verbosity=1', '-print_final_stats=1', '-use_value_profile=%d' % (i % 2)],
                                          cwd=w, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
    runs = 0; bad = None; cov = 0
    for w, p in procs:
        try: out = p.communicate(timeout=secs + 120)[0].decode('latin-1')
        except subprocess.TimeoutExpired: p.kill(); continue
        m = re.search(r'number_of_executed_units: (\d+)', out)
        if m: runs += int(m.group(1))
        for m in re.finditer(r'cov: (\d+)', out): cov = max(cov, int(m.group(1)))
        c = sorted(glob.glob(w + '/crash-*') + glob.glob(w + '/timeout-*'))
        if c and bad is None:
            # a failing input counts only if it fails again by itself
            again = [subprocess.run([exe, '-timeout=20', c[0]], cwd=w, env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0:symbolize=0'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT) for _ in range(2)]
            if all(a.returncode for a in again):
                mini = w + '/mini'
                if 'crash-' in c[0]: subprocess.run([exe, '-minimize_crash=1', '-max_total_time=20', '-exact_artifact_path=' + mini, c[0]], cwd=w, env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0:symbolize=0'), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                f = mini if os.path.exists(mini) else c[0]
                s = [l for l in again[0].stdout.decode('latin-1').splitlines() if 'SUMMARY' in l or 'ERROR:' in l]
                bad = (open(f, 'rb').read(), ' / '.join(s)[:400])
    if bad: raise Violation('libFuzzer input (first byte: language, second: mode) %r: %s' % bad)
    return {'fuzzer_executions': runs, 'fuzzer_edge_coverage': cov, 'fuzzer_seconds': secs}

LG = st.sampled_from(NAMES)
if __name__ == '__main__':
    sys.exit(pbt.main('C06', [
        Test('parse', st.fixed_dictionaries({'lang': LG, 'text': BYTES, 'other': BYTES, 'lic': st.booleans()}), parse, 14000),
        Test('long', st.fixed_dictionaries({'lang': LG, 'text': LONG, 'other': BYTES, 'lic': st.integers(0, 9).map(lambda x: x == 0)}), parse, 900),
        Test('detect', st.fixed_dictionaries({'path': NAME, 'text': st.one_of(CONT, BYTES, LONG), 'names': st.one_of(st.none(), st.lists(NAME, max_size=5))}), detect, 8000),
        Test('broken', broken(), detect, 8000),
        Test('mutate', st.fixed_dictionaries({'i': st.integers(0, 10**6), 'j': st.integers(0, 10**6), 'other': SOUP, 'edits': st.lists(st.tuples(st.integers(0, 4), st.integers(0, 20000), st.integers(0, 1000), st.one_of(st.sampled_from(PIECES), st.binary(max_size=6))), min_size=1, max_size=6)}), mutate, 3000),
        Test('command', st.fixed_dictionaries({'files': st.lists(st.tuples(st.sampled_from(ODD), st.one_of(BYTES, CONT, LONG.map(lambda t: t[:4500])), st.sampled_from(['', '', '', 'dir', 'noread', 'link'])), max_size=4, unique_by=lambda x: x[0]), 'flag': st.sampled_from(FLAGS), 'how': st.sampled_from(['dot', 'none', 'args'])}), command, 2500),
    ], targets=('srv', 'cliasan', 'fuzz'), extra=extra, rule='Arbitrary bytes, token soups, very long lines and mutated real sources through every scanner, detection, licences, diffs and the command line, in sanitized builds, plus coverage-guided fuzzing; '
             'non-trivial: more than one line reported, a language detected, or more than two lines printed'))
