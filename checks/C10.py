"""C10: languages that share an extension are told apart by what is in the file and beside it."""
from _parse import *
import hypothesis.strategies as st
import detmodel, dettables, tempfile, shutil

# lines of each language that shares an extension with another, and lines that say nothing
A = {
    'aspx': [b'<%@ Page Language="VB" %>', b'<%@Page language="vb" AutoEventWireup="false"%>', b'<%@ PAGE Inherits="x" LANGUAGE="VB" Title="a" %>', b'<%@ Page Language="C#" %>', b'<%@ Control Language="VB" %>', b'<%@ Import Namespace="System" %>', b'<p>x</p>',
             b'<% x = 1 %>', b'<!-- Language="VB" -->', b'<%@ Page Title="t" %><%@ Import Namespace="x" %>', b'', b'<%@ Master Language="VB" %>', b'<%@', b'%>', b'<script language="vb">', b'page'],
    'asx': [b'<asx version="3.0">', b'lda #0', b'; comment', b'', b'  ', b'\t', b'.org 200', b'\xef\xbb\xbf<asx>', b'  <title>x</title>', b'* = 400', b'\xfe\xff<asx>', b'\xff\xfe<asx>', b'\xfd<asx>'],
    'b': [b'implement X;', b'implement\tY;', b'include "sys.m";', b'include "a"', b'return x;', b'break;', b'\tcontinue;', b'case x {', b'pick y {', b'x = 1', b'print "hello"', b'10 PRINT x', b'20\tx', b'  30 x', b'100', b'99x', b'', b"' note", b'implementx', b'return', b'case', b'sub foo()', b'include x', b'returns 1'],
    'basic': [b'10 PRINT x', b'5\tGOTO 10', b'10', b'10PRINT', b' 10 PRINT', b'x = 10 y', b'Dim x', b'', b"' 10 x", b'1 +', b'99999  \t z'],
    'cs': [b'using System;', b'<?cs var:x ?>', b'<?cs', b'<? cs', b'<%cs', b'class A {}', b'// <?csharp', b'', b'< ?cs', b'<?CS x ?>'],
    'dat': [b'data;', b'param x := 1;', b'set A := 1;', b'# note', b'/* note */', b'/ x', b'dat', b'parm', b'se', b'x y', b'', b'  ', b'\x01\x02', b'1 2 3', b'd', b'p', b's', b'\tset B;', b'Data', b'#'],
    'def': [b'(* note *)', b'DEFINITION MODULE x;', b'( x', b'DEFINE', b'D', b'LIBRARY x', b'EXPORTS', b'', b'  ', b'\t', b'definition module', b'; x', b'*)'],
    'mod': [b'(* note *)', b'IMPLEMENTATION MODULE x;', b'MODULE y;', b'( x', b'I x', b'M x', b'var x;', b'# note', b'', b'  ', b'\t', b'set A;', b'module z', b'IMPLEMENT', b'MODEL', b'/* c */'],
    'fs': [b'\\ note', b': sq dup * ;', b'  : cube dup sq ;', b'| A', b'let x = 1', b'type T = int', b'// note', b'  let y = 2', b'\t| B', b'', b'x y z', b':x', b'letter 1', b'\\x', b'/ x', b'module M', b'  ', b'lets go', b'( comment )', b': '],
    'fortran': [b'C note', b'c note &', b'* note', b'! note', b'      x = 1', b'   10 y = x', b'     & + 2', b'     1 + 2', b'\tx = 3', b"      s = 'a & b'", b'      s = "a & b"', b'      y = 1 ! a & b', b'', b'  100 continue', b'10    goto 10', b'      end', b'   ! note', b'100 0 z = 1', b'     ! x',
                b'      call f(1, 2)', b'x = 1', b'  y = 2', b'program foo', b'      z = 1 + &', b'12345& x', b'10   a x = 1', b'end', b' x', b'integer :: i', b"      s = 'it' & t", b'CALL f', b'call f', b'999  1 x', b'    x = 1', b'\tx = 1 + &', b'#define x'],
    'h': [b'#include <vector>', b'#include <stdio.h>', b'#include "foo.hpp"', b'# include <tr1/memory>', b'#include  "a.hh"', b'#include "b.H"', b'#include <string.h>', b'#include "x.c"', b'class Foo;', b'namespace a {', b'template <T>', b'  typename T', b'struct class_x;', b'int subclass;', b'// see class x', b'int x;', b'',
          b'@interface A', b'int Class;', b'void f(class_t *);', b'xclass', b'classy', b'#define CLASS', b'a.class', b'(template)', b'#include "vector', b'#include <iostream', b'#include "x.hxx"', b'include <vector>', b'//#include <vector>', b'#import <vector>', b'#include vector', b'#include <map>', b'# \tinclude\t<set>',
          b'#include <x.h++>', b'typedef int template2;', b'int a_namespace;', b'#include <cstdio>', b'#include "y.cc"', b'#include "z.cu"', b'#include <dir.hpp/x.h>'],
    'inc': [b'<?php', b'?php', b'<? php', b'echo 1;', b'?>', b'', b'.macro x', b'<?PHP', b'??php x', b'x ?ph', b'?'],
    'm': [b'% note', b'  % note', b'#import <A.h>', b'# note', b'## note', b'#note', b'// note', b'/* note */', b'- (void)x;', b'+ (id)y;', b'@interface A', b'@implementation B', b'@end', b'function (x)', b'function y = f(x)', b'function\t(y)', b'include "a.m";', b'include "b.h";', b'endfunction', b'  endwhile', b'x; end_try_catch',
          b'end_unwind_protect', b'a: module {', b'b: adt {', b'f: fn(x: int);', b'g: fn (y);', b'c: con 1;', b'd: modules', b'(* note *)', b'f[#&, x]', b'a /. b', b'x__', b'f @@ y', b'x = 1;', b'', b'y & z', b'a_b_', b'#2 & )', b'endwhiles', b'my_endwhile_x', b'include "', b'  + 1', b'e: con', b'@property x', b'#if A', b'a: b: adt', b'[x &]', b'p: adtx'],
    'pl': [b'#!/usr/bin/perl', b'#!/usr/bin/Perl -w', b'a(X) :- b(X).', b'a(X) :-', b'a :-b.', b'my $x = 1;', b'', b'# perl', b'print ":-)";', b'#!/bin/sh', b'x', b'% note', b':- module(a).', b'":- "'],
    'pp': [b'ensure => present,', b'  content  =>  "x",', b'source=> 1', b'class foo {', b'class a::b inherits c {', b'class (x)', b'define a::b (', b'define x(', b'node foo {', b"node 'a.b' {", b'import "x"', b"import 'x'", b'include foo', b'include "a"', b'program x;', b'begin', b'end.', b'type c = class', b'', b'x := 1;', b'{ include x }', b'uses a;',
           b'class foo', b'notify => y', b'requires => z', b'  define', b'nodes {', b'class x;', b'include', b'(* node x { *)'],
    'pro': [b'SOURCES += a.c', b'SOURCES+=b.c', b'CONFIG += qt', b'CONFIG+=x', b'SOURCES  += a', b'SOURCE += a', b'CONFIG = x', b'pro x', b'end', b'; note', b'', b'x.SOURCES += 1', b'config += x', b'SOURCES', b'+= CONFIG', b'XCONFIG+='],
    'r': [b'REBOL []', b'rebol', b'Rebol [x]', b'x <- 1', b'# note', b'', b'rebo l', b'reb', b'xrebolx', b'rRebol', b'rerebol', b'rebo', b'ol', b'reBOL'],
    'rs': [b'#pragma version(1)', b'#pragma VERSION(1)', b' #pragma version(1)', b'fn main() {}', b'// #pragma version', b'#pragma rs', b'#pragma', b'', b'#pragma version', b'use x;', b'# pragma version'],
    'st': [b'x := 1.', b'x : = 1.', b'a do: [ :y | y ].', b'b ifTrue:[z].', b'].', b'x: 1', b']', b'[ x ]', b'', b'"note"', b'[x.', b'y:=2', b'] .', b'do: z', b'x:\t[', b'(a: [1])', b'=:'],
}
A['in'] = sum([A[k][:10] for k in ('h', 'pl', 'basic', 'r')], []) + [b'-*- python -*-', b'#!/bin/sh', b'plain']
NAMES = ['a.h', 'x.m', 'foo.m', 'foo.h', 'b.c', 'c.cpp', 'd.C', 'e.cc', 'f.c++', 'g.cxx', 'form.frm', 'p.vbp', 's.vbs', 'q.frx', 'v.vba', 'frms', 'ch', 'README', 'h', 'a.hpp', 'm', 'x.frmx', 'a.b.h', 'foo.mm', 'c', '.h', '.c', 'FOO.M', 'vba.txt', 'foo.h.m']
BYID = {}
for e, v in dettables.EXT.items():
    if v[0] == '?': BYID.setdefault(v[1:], []).append(e)

@st.composite
def case(draw, id):
    atoms = A[id]
    # few kinds of lines in a file, so that each language comes up
    some = draw(st.lists(st.sampled_from(atoms), min_size=1, max_size=4))
    ls = draw(st.lists(st.sampled_from(some), min_size=1, max_size=10)) if draw(st.booleans()) else draw(st.lists(st.sampled_from(atoms), min_size=1, max_size=6))
    pad = draw(st.sampled_from([0, 0, 0, 0, 1, 40, 400]))
    nothing = {'st': b'"x"', 'fortran': b'C x', 'h': b'int q;', 'm': b'q = 1;'}.get(id, b'')
    ls = [nothing] * pad + ls if draw(st.booleans()) else ls + [nothing] * pad
    nl = draw(st.sampled_from([b'\n', b'\n', b'\n', b'\r\n' if id not in ('pl', 'rs') else b'\n']))
    text = nl.join(ls) + (nl if draw(st.booleans()) else b'')
    ext = draw(st.sampled_from(BYID[id]))
    stem = draw(st.sampled_from(['foo', 'foo', 'x', 'a.b', 'Makefile', '']))
    if id == 'in': stem = draw(st.sampled_from(['foo.h', 'foo.pl', 'foo.c', 'foo.R', 'configure', 'Makefile', 'foo', 'x.h.in', 'a.jpg', 'foo.xyzzy', 'foo.bas', 'b.in.in', '', '.in']))
    # an upper-case form that has no entry of its own is the same extension
    if draw(st.integers(0, 4)) == 4 and ext.upper() not in dettables.EXT: ext = draw(st.sampled_from([ext.upper(), ext.capitalize(), ext[:-1] + ext[-1].upper()]))
    names = draw(st.one_of(st.none(), st.lists(st.sampled_from(NAMES + {'h': [stem + '.m'] * 8, 'basic': ['f.frm', 'f.vbp', 'x.vba'] * 4, 'm': ['x.h'] * 10}.get(id, [])), max_size=4)))
    return {'id': id, 'path': draw(st.sampled_from(['', 'd/', '/a.b/c/', 'w\\', 'x.h/'])) + stem + '.' + ext, 'text': text or b'x', 'names': names, 'disk': draw(st.integers(0, 3)) == 3}

def told(ctx, case):
    path, text, names = case['path'], case['text'], case['names']
    try: want = detmodel.detect(path, text, names)
    except detmodel.Unsure: raise Skip
    if case['id'] != 'in' and detmodel.EXT.get(detmodel.split(path)[1]) is None and detmodel.EXT.get(detmodel.split(path)[1].lower()) is None: raise Skip
    disk = None
    if case['disk']:
        disk = os.path.join(ctx.scratch, 'content'); open(disk, 'wb').write(text)
    got = ctx.run([ohc.new(0, path, None if disk else text, disk, None, names), ohc.req('L', 0), ohc.req('L', 0)])
    check(got[1] == got[2], '%s: detected as %r, then as %r', path, got[1], got[2])
    g = got[1][0].decode() if got[1][0] else None
    check(g == want, '%s beside %r is detected as %r, should be %r:\n%s', path, names, g, want, text[-1500:].decode('latin-1'))
    return ['%s:%s' % (case['id'], want), 'nontrivial']

if __name__ == '__main__':
    sys.exit(pbt.main('C10', [Test('told', st.sampled_from(sorted(A) + ['h', 'm', 'm', 'm', 'fortran', 'fortran', 'b', 'fs', 'st', 'st', 'pp', 'aspx']).flatmap(case), told, 40000)],
        rule='Files with each shared extension, made of lines typical of each of its languages, of near misses and of lines that say nothing, with or without a list of neighbouring files; every case inside the documented rules is non-trivial'))
