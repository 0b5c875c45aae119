"""C12: licences are those whose notices stand in a file's comments, whatever the language and the layout of the comments."""
from _parse import *
import hypothesis.strategies as st
import emb

# name -> notices; ~ marks a space that stays one space
T = {}
def lic(name, *notices): T[name] = list(notices)
lic('academic', 'Academic Free License'); lic('adaptive', 'Adaptive Public License'); lic('affero', 'GNU Affero General Public License')
lic('apache', 'Apache Software License', 'Apache License'); lic('apache_2', 'Apache License, Version 2.0', 'Apache License 2', 'Apache Software License, version 2')
lic('apple_open_source', 'Apple Public Source License'); lic('artistic', 'Artistic License'); lic('attribution_assurance', 'Attribution Assurance License', 'Attribution Assurance Licenses')
lic('boost', 'Boost Software License'); lic('bsd', 'BSD license', 'The~Regents~of~the~University~of~California'); lic('cecill', 'CeCILL'); lic('cecill_b', 'CeCILL-B'); lic('cecill_c', 'CeCILL-C')
lic('computer_associates_trusted', 'Computer Associates Trusted Open Source License'); lic('common_development_and_distribution', 'Common Development and Distribution License')
lic('common_public', 'Common Public License'); lic('cua_office', 'CUA Office Public License'); lic('eu_datagrid', 'EU DataGrid Software License'); lic('eclipse', 'Eclipse Public License')
lic('educational', 'Educational Community License'); lic('eiffel', 'Eiffel Forum License'); lic('eiffel_2', 'Eiffel Forum License~V2', 'Eiffel Forum License~2'); lic('entessa', 'Entessa Public License'); lic('fair', 'Fair License')
lic('frameworx', 'Frameworx License')
lic('gpl3_or_later', 'GNU~General~Public~License Version~3 or later', 'GPL~3 or any later version', 'GNU~General~Public~License as published by the Free Software Foundation; either version~3 of the License, or (at your option) any later version')
lic('gpl3', 'GNU~General~Public~License~Version~3', 'GNU~GPL~v3'); lic('lgpl3', 'GNU Lesser General Public License version 3', 'LGPL version 3', 'LGPL 3.0')
lic('gpl', 'GPL', 'GNU General Public License', 'GPLv2', 'www.gnu.org/licenses/gpl.txt'); lic('lgpl', 'LGPL', 'GNU Lesser General Public License', 'GNU Library General Public License', 'Lesser GPL', 'Library GPL', 'GNU Lesser Public License', 'GNU Library License', 'GNU Lesser Public License', 'GNU Library License')
lic('historical', 'Historical Permission Notice and Disclaimer'); lic('i9_license', 'i9 License'); lic('ibm_public', 'IBM Public License'); lic('intel_open_source', 'Intel Open Source License')
lic('jabber_open_source', 'Jabber Open Source License'); lic('lucent_plan9', 'Lucent Public License (Plan9'); lic('lucent_public', 'Lucent Public License Version 1', 'Lucent Public License 1'); lic('mit', 'MIT License', 'MIT/X11 license', 'MIT/X11 licensed')
lic('mitre', 'MITRE Collaborative Virtual Workspace License'); lic('motosoto', 'Motosoto License'); lic('mozilla_public_1', 'Mozilla Public License'); lic('mozilla_public_1_1', 'Mozilla Public License~1.1')
lic('nasa_open', 'NASA Open Source Agreement'); lic('naumen', 'Naumen Public License'); lic('nethack', 'Nethack General Public License'); lic('nokia_open_source', 'Nokia Open Source License'); lic('oclc_research', 'OCLC Research Public License')
lic('open_group_test', 'Open Group Test Suite License'); lic('open_software', 'Open Software License'); lic('php_license', 'PHP License'); lic('python_license', 'Python License')
lic('python_software_foundation', 'Python Software Foundation License'); lic('qt_public', 'Qt Public License'); lic('realnetworks_public_source', 'RealNetworks Public Source License'); lic('reciprocal_public', 'Reciprocal Public License')
lic('ricoh_source', 'Ricoh Source Code Public License'); lic('sleepycat', 'Sleepycat License'); lic('sugarcrm_1_1_3', 'Sugar Public License Version 1.1.3'); lic('sun_industry_standards', 'Sun Industry Standards Source License')
lic('sun_public', 'Sun Public License'); lic('sybase_open_watcom', 'Sybase Open Watcom Public License'); lic('u_of_i_ncsa', 'University of Illinois/NCSA Open Source License'); lic('vovida_software', 'Vovida Software License')
lic('w3c', 'W3C License'); lic('wx_windows', 'wxWindows Library License'); lic('x_net', 'X.Net License'); lic('zope', 'Zope Public License'); lic('zlib_libpng', 'zlib/libpng license')
lic('wtfpl_2', 'WTFPL', 'WTF Public License', 'Do What The Fuck Public License')
# these reach for the last mention of a licence, or across a long text: used alone
ALONE = {'apache_ish': ['Apache-style license', 'Apache-like software license']}
COND = ('Copyright (c) 2007, %s All~rights~reserved. Redistribution~and~use~in~source~and~binary~forms,~with~or~without modification,~are~permitted~provided~that~the~following~conditions are~met: '
        'Redistributions~of~source~code~must~retain~the~above~copyright notice,~this~list~of~conditions~and~the~following~disclaimer. Redistributions~in~binary~form~must~reproduce~the~above~copyright '
        'notice,~this~list~of~conditions~and~the~following~disclaimer~in~the documentation~and/or~other~materials~provided~with~the~distribution. ')
ENDORSE = 'Neither~the~name~of~the~%s~nor~the names~of~its~contributors~may~be~used~to~endorse~or~promote~products derived~from~this~software~without~specific~prior~written~permission. '
DISC = 'THIS~SOFTWARE~IS~PROVIDED~BY~THE~COPYRIGHT~HOLDERS~AND~CONTRIBUTORS "AS~IS" and any warranties are disclaimed in no event shall they be liable for any damages HOWEVER~CAUSED~AND~ON~ANY THEORY~OF~LIABILITY,~WHETHER~IN~CONTRACT, strict liability, or tort'
ORDER = None

FILL = 'this file is distributed under the terms of see copying for details without any warranty and may be used freely subject to these conditions which apply to all copies thereof caf\u00e9'.split()
# languages whose comment markers are punctuation only
def marks():
    out = {}
    for k, l in lang.TABLE.items():
        if l.lead or l.bare or k in ('fortranfixed',): continue
        m = [('line', x, '') for x in l.line if not any(c.isalnum() for c in x)] + [('block', b.o, b.c) for b in l.block if b.ml and not any(c.isalnum() for c in b.o + b.c)]
        if m: out[k] = (l, m)
    return out
MARKS = marks()

def expected(names):
    s = set(names)
    if 'gpl' in s and s & {'gpl3', 'gpl3_or_later'}: s.discard('gpl')
    if 'gpl3' in s and 'gpl3_or_later' in s: s.discard('gpl3')
    return s

class Draw:
    def __init__(self, b): self.b, self.i = b, 0
    def n(self, k): v = self.b[self.i % len(self.b)] if self.b else 0; self.i += 1; return (v + self.i // max(1, len(self.b)) * 7) % k

def case_word(w, d, k):
    return w.upper() if k == 1 else w.lower() if k == 2 else ''.join(c.upper() if d.n(2) else c.lower() for c in w) if k == 3 else w

def words(phrase, d, keep):
    k = 0 if keep else d.n(4)
    return [case_word(w, d, k) for w in phrase.split(' ')]

def filler(d, lo):
    out = []
    while sum(map(len, out)) + len(out) < lo: out.append(FILL[d.n(len(FILL))])
    return out

def layout(ws, d, kind, o, c, wide=True):
    """Lay words out as comment lines of one style."""
    lines = []; cur = []; width = [20, 40, 72, 200][d.n(4)]; gap = [' ', ' ', ' ', '  ', '\t', '   '][d.n(6)]
    if not wide: gap = ' '
    if d.n(4) == 3 and not any(x.isalnum() for x in o + c): ws = [x for w in ws for x in w.split('~')]; gap = ' '       # a line end is as good as one space
    for w in ws:
        w = w.replace('~', ' ')
        if cur and len(' '.join(cur)) + len(w) > width: lines.append(gap.join(cur)); cur = []
        cur.append(w)
    if cur: lines.append(gap.join(cur))
    deco = ['', ' * ', '  ', '\t', ' ** ', ' | ', ' *\t'][d.n(7)]
    ind = ['', '  ', '\t'][d.n(3)]
    if kind == 'line': return [ind + o + (deco if not deco.strip() else ' ') + l for l in lines]
    f = d.n(3)
    if f == 0: return [ind + o + ' ' + lines[0]] + [ind + deco + l for l in lines[1:-1]] + ([ind + deco + lines[-1] + ' ' + c] if len(lines) > 1 else []) if len(lines) > 1 else [ind + o + ' ' + lines[0] + ' ' + c]
    return [ind + o] + [ind + deco + l for l in lines] + [ind + ' ' + c]

import json
SHOWN = json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib', 'licnames.json')))     # name: nice name, address
def ask(ctx, lg, text):
    r = ctx.run([ohc.new(0, 'f', text, None, lg), ohc.req('I', 0), ohc.req('O', 0), ohc.req('I', 0), ohc.new(1, 'f', text, None, lg), ohc.req('O', 1), ohc.req('I', 1), ohc.req('i', 0)])
    check(r[1] == r[3] == r[6], '%s: licences %r, then %r, after the counts %r', lg, r[1], r[3], r[6])
    check(r[2] == r[5], '%s: counts %r with the licences asked first, else %r', lg, r[2], r[5])
    for i in range(0, len(r[7]), 3):
        n = r[7][i].decode(); check(r[7][i + 1:i + 3] == [x.encode() for x in SHOWN[n]], 'licence %s is shown as %r', n, r[7][i + 1:i + 3])
    check(r[7][::3] == r[1], 'licences %r, then %r', r[1], r[7][::3])
    return [x.decode() for x in r[1]]

def compare(got, want, lg, text):
    check(len(set(got)) == len(got), '%s: a licence is reported twice: %r', lg, got)
    check(set(got) == want, '%s\n%s\nlicences %r, should be %r', lg, text.decode('utf-8', 'replace')[:1500], sorted(got), sorted(want))

def notices(ctx, case):
    d = Draw(case['d']); l, ms = MARKS[case['lang']]
    blocks = []; names = []; near = 0
    for name, i, how in case['notices']:
        p = T[name][i % len(T[name])]
        if how == 'near':
            # one word put into the middle of a notice: no notice any more
            w = p.replace('~', ' ').split(' ')
            if len(w) < 3 or name in ('gpl3', 'gpl3_or_later', 'lgpl3', 'apache_2', 'eiffel_2', 'mozilla_public_1_1', 'lgpl', 'gpl', 'lucent_public', 'sugarcrm_1_1_3', 'mit', 'wtfpl_2', 'lucent_plan9', 'bsd', 'i9_license'): continue
            ws = w[:-1] + ['zebra'] + w[-1:]; near += 1
        else: ws = words(p, d, False); names.append(name)
        blocks.append(ws)
    if not blocks: raise Skip
    lines = []
    style = ms[d.n(len(ms))]
    for ws in blocks:
        # a single-style run of text: long enough that notices stay apart
        lines += layout(filler(d, 20) + ws + filler(d, 160), d, *style, wide=not {'gpl3', 'gpl3_or_later', 'lgpl3'} & set(names))
        for k in range(d.n(3)): lines.append(['', l.code[d.n(len(l.code))], l.code[d.n(len(l.code))] + ' ' + l.code[d.n(len(l.code))]][d.n(3)])
    strs = [s for s in l.strs if s.o == '"' and s.c == '"']
    if case['string'] is not None and strs:
        # a licence named by a string is not a notice
        p = T[case['string']][0].replace('~', ' ')
        if case['string'] not in names: lines.append('x ' + '"' + p + '"')
    text = ('\r\n' if case['crlf'] else '\n').join(lines + ['']).encode()
    if case['pad']:
        # a notice far into a large file of comments and code
        more = layout(filler(d, 60), d, *style) + [l.code[0]] * 3
        k = case['pad'] // len(more)
        text = ('\r\n' if case['crlf'] else '\n').join(more * k + lines + (more * (k // 2) if d.n(2) else []) + ['']).encode()
    # a marker inside the words would end the comment
    if style[0] == 'block' and any(style[1] in ' '.join(b) or style[2] in ' '.join(b) for b in blocks): raise Skip
    got = ask(ctx, case['lang'], text)
    compare(got, expected(names), case['lang'], text)
    return ['notices%d' % min(len(set(names)), 3)] + (['near'] if near else []) + (['nontrivial'] if names else [])

def full(ctx, case):
    d = Draw(case['d']); l, ms = MARKS[case['lang']]
    who = case['who']
    style = ms[d.n(len(ms))]
    k = case['kind']
    if k == 'bsd3': ws = (COND % who + ENDORSE % who + DISC).split(' '); want = {'bsd_ish'}
    elif k == 'bsd2': ws = (COND % who + DISC).split(' '); want = {'bsd_2clause_ish'}
    else: ws = filler(d, 20) + words(ALONE['apache_ish'][d.n(2)], d, False) + filler(d, 40); want = {'apache_ish'}
    ws = [w for w in ws if w]
    if style[0] == 'block' and any(style[1] in w or style[2] in w for w in ws): raise Skip
    lines = layout(ws, d, *style, wide=False)
    text = '\n'.join(lines + ['']).encode()
    compare(ask(ctx, case['lang'], text), want, case['lang'], text)
    return ['nontrivial', k]

# files that hold several languages: a notice counts in the comments of each
HOSTED = {'html': [('<!-- %s -->\n<p>x</p>\n',), ('<style type="text/css">\n/* %s */\na { b: c }\n</style>\n',), ('<script type="text/javascript">\n// %s\nvar x;\n</script>\n',)],
          'php': [('<!-- %s -->\n<p>x</p>\n',), ('<?php\n/* %s */\necho 1;\n?>\n',), ('<?php\n# %s\n?>\n',), ('<style type="text/css">\n/* %s */\n</style>\n',)],
          'rhtml': [('<!-- %s -->\n',), ('<%%\n# %s\nx\n%%>\n',), ('<script type="text/javascript">\n/* %s */\n</script>\n',)],
          'jsp': [('<!-- %s -->\n',), ('<%%\n// %s\nx;\n%%>\n',)],
          'mxml': [('<!-- %s -->\n',), ('<mx:Script>\n// %s\nx;\n</mx:Script>\n',), ('<mx:Style>\n/* %s */\na { b: c }\n</mx:Style>\n',)],
          'coffeescript': [('# %s\nx = 1\n',)], 'nix': [('# %s\nx = 1;\n',), ('/* %s */\n',), ("buildPhase = ''\n  # %s\n  echo x\n'';\n",)]}
def hosted(ctx, case):
    parts = HOSTED[case['lang']]; d = Draw(case['d']); text = ''; names = []
    for name, i, k in case['notices']:
        text += parts[k % len(parts)][0] % ' '.join(filler(d, 130) + words(T[name][i % len(T[name])].replace('~', ' '), d, False) + filler(d, 130)); names.append(name)
    got = ask(ctx, case['lang'], text.encode())
    compare(got, expected(names), case['lang'], text.encode())
    return ['nontrivial'] if len(set(names)) > 1 else []

NAME = st.one_of(st.sampled_from(sorted(T)), st.sampled_from(['gpl', 'gpl3', 'gpl3_or_later', 'lgpl', 'lgpl3', 'mit', 'bsd', 'apache', 'apache_2', 'eiffel', 'eiffel_2', 'mozilla_public_1_1']))
# the first mention of a licence is the one looked at: notices of which one begins like another are not used together
def apart(ns):
    s = {n[0] for n in ns if n[2] != 'near'}
    if s & {'gpl', 'gpl3', 'gpl3_or_later'} and any(n[0] == 'lgpl' and T['lgpl'][n[1] % len(T['lgpl'])].endswith(' GPL') for n in ns): return False
    return len({n[0] for n in ns}) == len(ns) and all(len(s & g) < 2 for g in ({'apache', 'apache_2'}, {'eiffel', 'eiffel_2'}, {'mozilla_public_1', 'mozilla_public_1_1'}, {'cecill', 'cecill_b', 'cecill_c'}, {'lgpl', 'lgpl3'}, {'gpl', 'gpl3', 'gpl3_or_later'}))
D = st.lists(st.integers(0, 83), min_size=8, max_size=80)
if __name__ == '__main__':
    sys.exit(pbt.main('C12', [
        Test('notices', st.fixed_dictionaries({'lang': st.sampled_from(sorted(MARKS)), 'd': D, 'crlf': st.booleans(), 'string': st.one_of(st.none(), NAME), 'pad': st.sampled_from([0] * 60 + [300, 1500, 5000]),
                                               'notices': st.lists(st.tuples(NAME, st.integers(0, 9), st.sampled_from(['yes', 'yes', 'yes', 'near'])), min_size=1, max_size=4).filter(apart)}), notices, 9000),
        Test('full', st.fixed_dictionaries({'lang': st.sampled_from(sorted(MARKS)), 'd': D, 'who': st.sampled_from(['Jane~Doe.', 'The~Project~Team,', 'X~Y']), 'kind': st.sampled_from(['bsd3', 'bsd2', 'apache_ish'])}), full, 1600),
        Test('hosted', st.fixed_dictionaries({'lang': st.sampled_from(sorted(HOSTED)), 'd': D, 'notices': st.lists(st.tuples(NAME, st.integers(0, 9), st.integers(0, 9)), min_size=1, max_size=4).filter(lambda n: apart([x + () for x in n]))}), hosted, 4000),
    ], rule='Files in every language whose comment markers are punctuation, and files of several languages, holding up to four licence notices (and near misses) in random case, wrapping and decoration; non-trivial: a notice '
            'is present (two for files of several languages)'))
