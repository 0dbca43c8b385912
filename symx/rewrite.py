#!/usr/bin/env python3
"""Rewrite C++ source so that every `double`/`float` becomes SymReal and every
floating literal becomes an exact symbolic constant.  Purely lexical (comments,
strings and preprocessor lines are left alone), so it does not depend on how the
code is written."""
import re, sys, os
TOK = re.compile(r'''
  (?P<comment>//[^\n]*|/\*.*?\*/)
 |(?P<raw>R"(?P<d>[^()\\ ]{0,16})\(.*?\)(?P=d)")
 |(?P<str>"(?:\\.|[^"\\\n])*")
 |(?P<chr>'(?:\\.|[^'\\\n])+')
 |(?P<num>(?:\d[\d']*\.[\d']*|\.\d[\d']*|\d[\d']*(?=[eE][+-]?\d))(?:[eE][+-]?\d+)?[fFlL]?|0[xX][0-9a-fA-F']+[uUlL]*|\d[\d']*[uUlL]*)
 |(?P<id>[A-Za-z_]\w*)
 |(?P<ws>\s+)
 |(?P<op>.)
''', re.X | re.S)
MAP = {'float': 'SymReal', 'M_PI': 'SYM_PI', 'sscanf': 'symx_sscanf', 'stod': 'symx_stod_', 'stof': 'symx_stod_',
       'exit': 'symx_exit_', 'constexpr': 'const', 'fprintf': 'symx_fprintf', 'fetestexcept': 'symx_fetestexcept'}
OPEN = {'(': 1, '[': 1, '{': 1}; CLOSE = {')': 1, ']': 1, '}': 1}
def fix_ternaries(toks):
    """cond ? a : b  ->  cond ? symx::sel<A,B>(a) : symx::sel<A,B>(b), so that mixed
    SymReal/integer operands keep the common type they have for double/integer."""
    res = []; i = 0; n = len(toks)
    def find(j, want_colon):
        depth = 0; nest = 0
        while j < n:
            k, t = toks[j]
            if k == 'op':
                if t in OPEN: depth += 1
                elif t in CLOSE:
                    if depth == 0: return j
                    depth -= 1
                elif depth == 0:
                    if t == '?': nest += 1
                    elif t == ':':
                        if toks[j+1:j+2] and toks[j+1][1] == ':': j += 2; continue
                        if nest == 0: return j
                        nest -= 1
                    elif t in ';,': return j
            elif k == 'ppmark': return j
            j += 1
        return n
    while i < n:
        k, t = toks[i]
        if k == 'op' and t == '?':
            c = find(i + 1, True)
            if c < n and toks[c][1] == ':':
                e = find(c + 1, False)
                A, B = toks[i+1:c], toks[c+1:e]
                txt = [x[1] for x in A + B]
                if 'throw' not in txt and '{' not in txt and not any(x[0] == 'comment' and x[1].startswith('//') for x in A + B):
                    a, b = fix_ternaries(A), fix_ternaries(B)
                    sa, sb = ''.join(a), ''.join(b)
                    res.append('? symx::sel<decltype((%s)),decltype((%s))>(%s) : symx::sel<decltype((%s)),decltype((%s))>(%s)' % (sa.strip(), sb.strip(), sa, sa.strip(), sb.strip(), sb))
                    i = e; continue
        res.append(t); i += 1
    return res
def rewrite(src, name=''):
    out = []; prev = prev2 = ''
    # split off preprocessor lines
    lines = src.split('\n'); chunks = []; buf = []; i = 0
    incomment = False
    while i < len(lines):
        l = lines[i]
        if not incomment and l.lstrip().startswith('#'):
            if buf: chunks.append(('code', '\n'.join(buf) + '\n')); buf = []
            pp = [l]
            while pp[-1].endswith('\\') and i + 1 < len(lines):
                i += 1; pp.append(lines[i])
            chunks.append(('pp', '\n'.join(pp) + '\n'))
        else:
            buf.append(l)
            # track block comments roughly
            s = re.sub(r'"(?:\\.|[^"\\])*"', '""', l)
            k = 0
            while True:
                if incomment:
                    e = s.find('*/', k)
                    if e < 0: break
                    incomment = False; k = e + 2
                else:
                    a = s.find('/*', k); b = s.find('//', k)
                    if a < 0 or (0 <= b < a): break
                    incomment = True; k = a + 2
        i += 1
    if buf: chunks.append(('code', '\n'.join(buf)))
    for kind, text in chunks:
        if kind == 'pp':
            if re.match(r'\s*#\s*define\b', text): text = re.sub(r'\bdouble\b', 'SymReal', text)
            out.append(text); continue
        toks = []
        for m in TOK.finditer(text):
            k = m.lastgroup if m.lastgroup != 'd' else 'raw'; t = m.group(0)
            o = t
            if k == 'num':
                if not re.match(r'0[xX]', t) and (('.' in t) or re.search(r'[eE]', t)): o = 'SymReal::lit("%s")' % t.replace("'", '')
            elif k == 'id':
                if t == 'double': o = 'double' if prev == 'long' or (prev == '<' and prev2 == 'duration') else 'SymReal'
                elif t in MAP and not (t == 'exit' and prev in ('.', '->')): o = MAP[t]
            toks.append((k, o))
            if k not in ('ws', 'comment'): prev2, prev = prev, t
        out.extend(fix_ternaries(toks))
    return ''.join(out)
if __name__ == '__main__':
    src, dst = sys.argv[1:3]
    os.makedirs(dst, exist_ok=True)
    for f in sorted(os.listdir(src)):
        if f.endswith(('.cpp', '.hpp')):
            with open(os.path.join(src, f)) as h: s = h.read()
            with open(os.path.join(dst, f), 'w') as h: h.write('#include "symx_prelude.hpp"\n#line 1 "%s"\n' % os.path.join(src, f) + rewrite(s, f))
