"""Reference model of language detection, written from its documentation: tables, order of the means of detection, and what tells
the languages that share an extension apart.  Raises Unsure where the documentation does not settle the answer."""
import re
from dettables import EXT, FILENAMES, NAMES, CPPHEADERS

class Unsure(Exception): pass

def split(path):
    i = max(path.rfind('/'), path.rfind('\\')); name = path[i + 1:]
    j = name.rfind('.')
    return name, name[j + 1:] if j >= 0 else ''

def lines(text): return re.split(rb'[\r\n]+', text)
def short(text):
    # the heuristics that go line by line look at the first 80 characters of each
    if any(len(l) > 80 for l in lines(text)): raise Unsure
    return lines(text)

def modeline(text):
    m = re.match(rb'(?:#![^\r\n]*[\r\n]+)*([^\r\n]*)', text)
    l = m.group(1)
    if l.startswith(b'#!'): return None
    if len(l) > 80: raise Unsure
    m = re.search(rb'-\*-[ \t]*(?:mode(?![A-Za-z0-9])[ \t:]*)?', l, re.I)
    if not m: return None
    w = re.match(rb'(?:(?!-\*-)[^\s;])*', l[m.end():]).group(0)
    return w.decode('latin-1')

MAGIC = [(rb'#! ?(?:/bin/|/usr/bin/env )?(?:sh|bash)(?:[ \n]|$)', 'shell'), (rb'#! ?/usr/bin/(?:env )?perl(?: -w)?\n', 'perl'), (rb'#! ?/usr/bin/(?:env )?python3?\n', 'python'), (rb'#! ?/usr/bin/(?:env )?ruby\n', 'ruby'),
         (rb'#! ?/usr/bin/(?:env )?php\n', 'php'), (rb'#! ?/usr/bin/(?:env )?lua\n', 'lua'), (rb'#! ?/usr/bin/g?awk -f\n', 'awk'), (rb'#! ?/opt/local/bin/(?:python -O|python)\n', 'python'), (rb'#! ?/usr/local/bin/ruby(?: -w)?\n', 'ruby'),
         (rb'<\?xml version="1\.0"(?: encoding="UTF-8")?\?>\n', 'xml')]
def magic(text):
    # libmagic has ideas of its own about interpreter lines further down and about single lines
    if b'\n' not in text and text.startswith((b'#!', b'<')) or b'#!' in text[1:] or b'<' in text[1:] or b'\0' in text: raise Unsure
    for r, l in MAGIC:
        if re.match(r, text): return l
    if text.startswith((b'#!', b'<')): raise Unsure
    return None

def detect(path, text, names=None, plain=True):
    """The language of a file; plain says that libmagic takes the text for nothing but text unless it begins with a marker."""
    name, ext = split(path)
    v = EXT.get(ext) or EXT.get(ext.lower())
    if not v:
        w = modeline(text)
        if w is not None:
            if w.lower() == 'c': return 'c'
            v = NAMES.get(w) or EXT.get(w) or NAMES.get(w.lower()) or EXT.get(w.lower())
    if not v: v = FILENAMES.get(name)
    if not v: v = magic(text)
    if v and v[0] == '?': return decide(v[1:], path, text, names)
    return None if v == '!' else v

def first(text): return text.lstrip(b' \t\r\n')

def d_aspx(p, t, names):
    for m in re.finditer(rb'(?=<%@(.*?)%>)', t, re.S):
        d = m.group(1).lower()
        if re.match(rb'[ \t]*page', d) and b'language="vb"' in d: return 'vb_aspx'
        if re.match(rb'\s*page', d) and re.search(rb'language\s*=\s*["\']?vb', d): raise Unsure
    return 'cs_aspx'
def d_asx(p, t, names):
    t = first(t)
    return None if t[:1] in (b'<', b'\xef', b'\xfe', b'\xff') and t else 'assembler'
def d_b(p, t, names):
    if re.search(rb'implement[ \t]|include[ \t]+"[^"]*";|(?:return|break|continue)[^\r\n]*;|(?:pick|case)[^\r\n]*\{', t): return 'limbo'
    if re.search(rb'implement|(?:return|break|continue).*;|(?:pick|case).*\{', t, re.S): raise Unsure
    return d_basic(p, t, names)
def d_basic(p, t, names):
    if any(re.match(rb'\d+[ \t]+[A-Za-z0-9]', l) for l in lines(t)): return 'classic_basic'
    if any(n.rsplit('.', 1)[-1] in ('frm', 'frx', 'vba', 'vbp', 'vbs') and '.' in n for n in names or ()): return 'visualbasic'
    return 'structured_basic'
def d_cs(p, t, names): return 'clearsilver_template' if b'<?cs' in t else 'csharp'
def d_dat(p, t, names): return 'ampl' if first(t).startswith((b'/*', b'#', b'data', b'param', b'set')) else None
def d_def(p, t, names): return 'modula2' if first(t).startswith((b'(*', b'DEFINITION')) else None
def d_mod(p, t, names):
    t = first(t)
    if not t: return None
    if t.startswith((b'(*', b'IMPLEMENTATION', b'MODULE')): return 'modula2'
    return None if t[:1] in b'(IM' else 'ampl'
def d_fs(p, t, names):
    a = b = 0
    for l in lines(t):
        l = l.lstrip(b' \t')
        if l.startswith((b'\\ ', b': ')): a += 1
        elif l.startswith((b'|', b'let ', b'type ', b'//')): b += 1
    return 'forth' if a > b else 'fsharp' if b > a else None
def d_fortran(p, t, names):
    for l in lines(t):
        if l and fortran_free(l): return 'fortranfree'
    return 'fortranfixed'
def fortran_free(l):
    l = l.decode('latin-1')
    if l[0] not in ' \t' and not l[0].isdigit(): return l[0] not in 'Cc*!'
    if l[0] == '\t': label, cont, rest = '', ' ', l[1:]
    else:
        m = re.match(r'[ \d]*', l[:5]).end()
        if m < min(5, len(l)): return l[m] != '!'
        label, cont, rest = l[:5], l[5:6] or ' ', l[6:72]
        if '\t' in label: raise Unsure
    if label.strip() and cont not in ' 0': return True
    if cont in '"\'&!' and cont.strip(): rest = rest
    # what is left of the statement after comments and strings
    out = ''; i = 0
    while i < len(rest):
        c = rest[i]
        if c == '!': break
        if c in '"\'':
            j = rest.find(c, i + 1)
            if j < 0: break
            i = j + 1; continue
        out += c; i += 1
    return '&' in out
def d_h(p, t, names):
    name, ext = split(p)
    if ext == 'h' and name[:-1] + 'm' in (names or ()): return 'objective_c'
    for l in short(t):
        m = re.match(rb'#[ \t]*include[ \t]+[<"]([^>"]*)', l)
        if m:
            h = m.group(1).decode('latin-1')
            if h in CPPHEADERS or '.' in h and EXT.get(h.rsplit('.', 1)[-1]) == 'cpp': return 'cpp'
        if re.search(rb'(?<![A-Za-z0-9_])(?:class|namespace|template|typename)(?![A-Za-z0-9_])', l): return 'cpp'
    return 'c'
def d_in(p, t, names): return detect(p[:-3], t, names) if p.lower().endswith('.in') else None
def d_inc(p, t, names): return 'php' if b'?php' in t and b'\0' not in t else None
def d_m(p, t, names):
    objc = mat = limbo = mma = 0; octave = False
    ns = names or ()
    if any(n.endswith('.h') for n in ns) and not any(n.endswith(('.c', '.C', '.cc', '.cpp', '.c++', '.cxx')) for n in ns): objc += 5
    for l in short(t):
        s = l.lstrip(b' \t')
        if s.startswith(b'%'): mat += 1
        elif s.startswith(b'#import'): objc += 1
        elif re.match(rb'#+[ \t]', s): limbo += 1; mat += 1; octave = True
        elif s.startswith((b'//', b'/*', b'+', b'-', b'@implementation', b'@interface')): objc += 1
        elif re.match(rb'function[ \t]*\(', s): mat += 1
        elif re.match(rb'include[ \t]+"[^"]*\.m"', s): limbo += 1
        if re.search(rb'(?<![A-Za-z0-9])(?:end_try_catch|end_unwind_protect|endfunction|endwhile)(?![A-Za-z0-9_])', l): octave = True
        limbo += len(re.findall(rb':[ \t](?:module(?![A-Za-z0-9])|adt(?![A-Za-z0-9])|fn ?\(|con[ \t])', l))
        mma += len(re.findall(rb'&[ \t]*[,)\]]', l)) + l.count(b'(*') + l.count(b'/.') + len(re.findall(rb'(?=__)', l)) + len(re.findall(rb'(?=@@)', l))
    if limbo > max(objc, mat, mma): return 'limbo'
    if objc > max(mat, mma): return 'objective_c'
    if mma > mat: return 'mathematica'
    return 'octave' if octave else 'matlab'
PUPPET = re.compile(rb'^\s*(?:(?:ensure|content|notify|require|source)\s+=>|define\s+[\w:-]+\s*\(|class\s+[\w:-]+(?:\s+inherits\s+[\w:-]+)?\s*[({]|node\s+\'?[\w:.-]+\'?\s*\{|import\s+"|include\s+["\']?[\w:-]["\']?)', re.M)
def d_pp(p, t, names):
    if len(t) > 9000: raise Unsure
    return 'puppet' if PUPPET.search(t) else 'pascal'
def d_pl(p, t, names):
    if re.match(rb'#![^\n]*perl', t[:100], re.I): return 'perl'
    return 'prolog' if b':- ' in t or b':-\n' in t else 'perl'
def d_pro(p, t, names): return 'make' if re.search(rb'(?:SOURCES|CONFIG) ?\+=', t) else 'idl_pvwave'
def d_r(p, t, names): return 'rebol' if b'rebol' in t.lower() else 'r'
def d_rs(p, t, names): return None if t.lower().startswith(b'#pragma version') or b'\n#pragma version' in t else 'rust'
def d_st(p, t, names):
    if b'::' in t: raise Unsure
    ls = short(t)
    has = lambda r: any(re.search(r, l) for l in ls)
    return 'smalltalk' if has(rb':[ \t]*=') and has(rb':[ \t]*\[') and has(rb'\]\.') else None
def decide(id, path, text, names): return globals()['d_' + id](path, text, names)

def binary(path):
    name = path
    if '.' not in name: return False
    e = name[name.rfind('.') + 1:]
    v = EXT.get(e) or EXT.get(e.lower())
    return v == '!'
