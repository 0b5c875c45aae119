"""Reference model of the gestalt rules: what a list of files is said to be, from the rule trees and the files' breakdowns."""
import json, os, random, re
try: import re._parser as sre
except ImportError: import sre_parse as sre
import dettables

DEFS = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'gestaltdefs.json')))   # frozen copy of the built-in definitions
MARKUP = {k for k, v in dettables.META.items() if v[1] == 1}

def rx(p, flags=0):
    if isinstance(p, dict): return ('(?i:%s)' if p['i'] else '(?:%s)') % p['re']
    return p
def comp(s, flags=0): return re.compile(s.encode(), re.M | flags)
_cache = {}
def regex(key, mk):
    if key not in _cache: _cache[key] = mk()
    return _cache[key]
def alt(ps): return '|'.join('(%s)' % rx(p) for p in ps)

IMPORT = re.compile(rb'^\s*import\s+(?:static\s+)?([a-zA-Z][\w\.\*\-]*)\b', re.M)
USING = re.compile(rb'^\s*using\s+([a-zA-Z][\w\.\*\-]*)\s*;', re.M)

class File:
    """path, name, language, breakdown {language: code}, code line counts, and what its XML says."""
    def __init__(self, path, lang, code, counts, maven=(), csproj=()):
        self.path, self.name, self.lang, self.code, self.counts, self.maven, self.csproj = path, path.rsplit(b'/', 1)[-1], lang, code, counts, maven, csproj

def count(rule, f):
    k = rule['k']
    if k == 'CHeaderRule':
        if f.lang not in ('c', 'cpp'): return 0
        r = regex(('h',) + tuple(rule['headers']), lambda: comp('include\\s*[\'<"](%s)[">\']' % '|'.join(rule['headers']), re.I))
        return sum(len(r.findall(f.code[l])) for l in ('c', 'cpp') if l in f.code)
    if k == 'FilenameRule':
        return 1 if regex(('f',) + tuple(rule['filenames']), lambda: comp(alt(rule['filenames']))).search(f.path) else 0
    if k in ('KeywordRule', 'CKeywordRule'):
        r = regex(('k', json.dumps(rule['keywords'])), lambda: comp('|'.join(rx(p) for p in rule['keywords'])))
        if k == 'CKeywordRule': ls = [l for l in ('c', 'cpp') if l in f.code][:1]
        elif rule['language']: ls = [rule['language']] if rule['language'] in f.code else []
        else: ls = list(f.code)
        return sum(len(list(r.finditer(f.code[l]))) for l in ls)
    if k in ('JavaImportRule', 'CSharpUsingRule'):
        lg, pat = ('java', IMPORT) if k[0] == 'J' else ('csharp', USING)
        r = regex(('i', json.dumps(rule['regex'])), lambda: comp(rx(rule['regex'])))
        return sum(1 for m in pat.findall(f.code.get(lg, b'')) if r.search(m))
    if k == 'MavenRule':
        g, a = (regex(('m', json.dumps(rule[x])), lambda: comp(rx(rule[x]))) for x in ('group', 'artifact'))
        return sum(1 for t, x, y in f.maven if t == rule['type'] and g.search(x) and a.search(y))
    if k == 'CsprojRule':
        r = regex(('m', json.dumps(rule['import'])), lambda: comp(rx(rule['import'])))
        return sum(1 for x in f.csproj if r.search(x))
    raise KeyError(k)

class World:
    def __init__(self, files):
        self.files = files; self.langs = {}
        for f in files:
            for l, n in f.counts.items(): self.langs[l] = self.langs.get(l, 0) + n
        self.total = sum(n for l, n in self.langs.items() if l not in MARKUP)
        self.memo = {}
    def has_language(self, l, p):
        if l not in self.langs: return False
        n = self.langs[l]
        if n == 0: return 0 >= p
        return self.total == 0 or 100.0 * n / self.total >= p
    def triggers(self, r, have):
        """Names the rule triggers with (None: the definition's own); [] if it does not."""
        k = r['k']
        if k == 'OrRule':
            for x in r['rules']:
                t = self.triggers(x, have)
                if t: return t
            return []
        if k == 'AndRule': return [None] if all(self.triggers(x, have) for x in r['rules']) else []
        if k == 'NotRule': return [] if r['rules'] and self.triggers(r['rules'][0], have) else [None]
        if k == 'GestaltRule': return [None] if (r['type'], r['name']) in have else []
        if k == 'LanguageRule': return [None] if self.has_language(r['language'], r['min_percent']) else []
        if k == 'FindFilenamesRule':
            p = regex(('n', json.dumps(r['regex'])), lambda: comp(rx(r['regex'])))
            return [(m.group(r['name_from_match']) or b'').decode() for m in (p.search(f.name) for f in self.files) if m]
        if id(r) not in self.memo: self.memo[id(r)] = sum(count(r, f) for f in self.files)
        return [None] if self.memo[id(r)] >= r['min_count'] else []
    def gestalts(self, defs):
        have = set(); out = []; left = list(defs)
        while True:
            new = []
            for d in left:
                t = self.triggers(d[2], have)
                if t:
                    new.append(d)
                    for n in t:
                        out.append((d[0], n if n is not None else d[1])); have.add(out[-1])
            if not new: return sorted(out, key=repr)
            left = [d for d in left if d not in new]

def leaves(r):
    if 'rules' in r:
        for x in r['rules']: yield from leaves(x)
    else: yield r

def sample(pattern, rnd):
    """A string the pattern matches (assertions aside)."""
    def go(p):
        out = []
        for op, av in p:
            n = str(op)
            if n == 'LITERAL': out.append(chr(av))
            elif n == 'NOT_LITERAL' or n == 'ANY': out.append('x')
            elif n == 'IN':
                o, v = rnd.choice(av); o = str(o)
                out.append(chr(v) if o == 'LITERAL' else chr(rnd.randint(*v)) if o == 'RANGE' else {'CATEGORY_DIGIT': '7', 'CATEGORY_SPACE': ' ', 'CATEGORY_WORD': 'w'}.get(str(v), 'x'))
            elif n == 'BRANCH': out.append(go(rnd.choice(av[1])))
            elif n == 'SUBPATTERN': out.append(go(av[3]))
            elif n in ('MAX_REPEAT', 'MIN_REPEAT'): out.append(''.join(go(av[2]) for _ in range(av[0] + rnd.randint(0, min(1, av[1] - av[0])))))
        return ''.join(out)
    return go(sre.parse(pattern))
