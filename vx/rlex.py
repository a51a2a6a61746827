"""A small Rust lexer and item index: just enough to cut functions, types and
constants out of /repo/src token by token."""
import os

P3 = ['<<=', '>>=', '...', '..=']
P2 = ['::', '->', '=>', '==', '!=', '<=', '>=', '&&', '||', '+=', '-=', '*=', '/=', '%=',
      '^=', '|=', '&=', '<<', '..']   # '>>' is left as two '>' (generics)


class LexError(Exception):
    pass


class Tok:
    __slots__ = ('k', 't', 'line', 'ws')

    def __init__(self, k, t, line, ws=' '):
        self.k, self.t, self.line, self.ws = k, t, line, ws

    def __repr__(self):
        return self.t


def lex(src):
    toks, i, n, line = [], 0, len(src), 1
    ws = ''
    while i < n:
        c = src[i]
        if c in ' \t\r\n':
            if c == '\n':
                line += 1
                ws = '\n'
            elif not ws:
                ws = ' '
            i += 1
            continue
        if src.startswith('//', i):
            j = src.find('\n', i)
            i = n if j < 0 else j
            continue
        if src.startswith('/*', i):
            d, j = 1, i + 2
            while j < n and d:
                if src.startswith('/*', j):
                    d += 1; j += 2
                elif src.startswith('*/', j):
                    d -= 1; j += 2
                else:
                    if src[j] == '\n':
                        line += 1
                    j += 1
            i = j
            ws = ws or ' '
            continue
        st = i
        if c.isalpha() or c == '_':
            # raw strings / byte strings / raw identifiers
            if src.startswith(('r"', 'r#"', 'br"', 'br#"'), i) or (c == 'r' and src.startswith('r##', i)):
                j = src.index('r', i) + 1
                h = 0
                while src[j] == '#':
                    h += 1; j += 1
                e = src.index('"' + '#' * h, j + 1) + 1 + h
                toks.append(Tok('str', src[st:e], line, ws)); ws = ''
                line += src.count('\n', st, e)
                i = e
                continue
            if src.startswith('b"', i):
                j = i + 2
                while src[j] != '"':
                    j += 2 if src[j] == '\\' else 1
                toks.append(Tok('bstr', src[st:j + 1], line, ws)); ws = ''
                i = j + 1
                continue
            if src.startswith("b'", i):
                j = i + 2
                while src[j] != "'":
                    j += 2 if src[j] == '\\' else 1
                toks.append(Tok('chr', src[st:j + 1], line, ws)); ws = ''
                i = j + 1
                continue
            j = i
            if src.startswith('r#', i):
                j = i + 2
            while j < n and (src[j].isalnum() or src[j] == '_'):
                j += 1
            toks.append(Tok('id', src[st:j], line, ws)); ws = ''
            i = j
            continue
        if c.isdigit():
            j = i
            while j < n and (src[j].isalnum() or src[j] == '_'):
                if src[j] in 'eE' and not src.startswith('0x', st) and j + 1 < n and src[j + 1] in '+-' and src[j+2].isdigit():
                    j += 1
                j += 1
                if j < n and src[j] == '.' and j + 1 < n and src[j + 1].isdigit() and '.' not in src[st:j]:
                    j += 1
            toks.append(Tok('num', src[st:j], line, ws)); ws = ''
            i = j
            continue
        if c == '"':
            j = i + 1
            while src[j] != '"':
                j += 2 if src[j] == '\\' else 1
            toks.append(Tok('str', src[st:j + 1], line, ws)); ws = ''
            line += src.count('\n', st, j + 1)
            i = j + 1
            continue
        if c == "'":
            # char literal or lifetime
            if src[i + 1] == '\\':
                j = src.index("'", i + 3)
                toks.append(Tok('chr', src[st:j + 1], line, ws)); ws = ''
                i = j + 1
                continue
            if i + 2 < n and src[i + 2] == "'":
                toks.append(Tok('chr', src[st:i + 3], line, ws)); ws = ''
                i += 3
                continue
            j = i + 1
            while j < n and (src[j].isalnum() or src[j] == '_'):
                j += 1
            toks.append(Tok('life', src[st:j], line, ws)); ws = ''
            i = j
            continue
        for p in P3 + P2:
            if src.startswith(p, i):
                break
        else:
            p = c
        toks.append(Tok('p', p, line, ws)); ws = ''
        i += len(p)
    return toks


OPEN, CLOSE = {'(': ')', '[': ']', '{': '}'}, {')', ']', '}'}


def match(toks, i):
    """index of the token closing the bracket at i"""
    d = 0
    for j in range(i, len(toks)):
        t = toks[j].t
        if toks[j].k != 'p':
            continue
        if t in OPEN:
            d += 1
        elif t in CLOSE:
            d -= 1
            if d == 0:
                return j
    raise LexError('unbalanced bracket')


def match_angle(toks, i):
    d = 0
    for j in range(i, len(toks)):
        t = toks[j].t
        if toks[j].k != 'p':
            continue
        if t == '<':
            d += 1
        elif t == '>':
            d -= 1
            if d == 0:
                return j
        elif t in ('(', '[', '{', ')', ']', '}') and t == '{':
            break
    raise LexError('unbalanced angle')


def txt(toks):
    out = []
    for k, t in enumerate(toks):
        if k == 0:
            out.append(t.t)
        elif t.ws == '\n':
            out.append('\n' + t.t)
        elif t.ws == ' ':
            out.append(' ' + t.t)
        else:
            out.append(t.t)
    return ''.join(out)


def norm(toks):
    return ' '.join(t.t for t in toks)


class Fn:
    def __init__(self):
        self.id = self.name = self.impl_type = self.trait = self.file = None
        self.impl_gen = []
        self.sig = []      # tokens from 'fn' (name included) up to the body brace
        self.body = []     # tokens including the braces
        self.line = 0
        self.parent = None

    def __repr__(self):
        return 'Fn(%s)' % self.id


class Index:
    def __init__(self):
        self.fns, self.types, self.consts, self.macros, self.dups = {}, {}, {}, {}, set()
        self.const_dups, self.emitted = set(), set()
        self.derives = {}
        self.soft = {}
        self.others = []
        self.problems = []

    def add_fn(self, f):
        if f.id in self.fns:
            self.dups.add(f.id)
        self.fns[f.id] = f


def base_type(toks):
    """first identifier path's last segment of an impl target"""
    name = None
    for t in toks:
        if t.k == 'id':
            name = t.t
        elif t.t == '<':
            break
    return name


def split_commas(toks):
    out, cur, d = [], [], 0
    for t in toks:
        if t.k == 'p' and t.t in ('(', '[', '{', '<'):
            d += 1
        if t.k == 'p' and t.t in (')', ']', '}', '>'):
            d -= 1
        if t.t == ',' and d == 0:
            out.append(cur); cur = []
        else:
            cur.append(t)
    if cur:
        out.append(cur)
    return out


class Parser:
    def __init__(self, index, fname):
        self.x, self.file = index, fname

    def items(self, toks, impl=None):
        i, n = 0, len(toks)
        attrs = []
        while i < n:
            t = toks[i]
            if t.t == '#':
                j = i + 1
                if toks[j].t == '!':
                    j += 1
                e = match(toks, j)
                attrs.append(norm(toks[j + 1:e]))
                i = e + 1
                continue
            skip = any(a.replace(' ', '') == 'cfg(test)' for a in attrs)
            start = i
            if t.t == 'pub':
                i += 1
                if toks[i].t == '(':
                    i = match(toks, i) + 1
                t = toks[i]
            while t.t in ('async', 'unsafe', 'default', 'extern') or (t.t == 'const' and toks[i + 1].t in ('fn', 'unsafe')):
                i += 1
                if toks[i].k == 'str':
                    i += 1
                t = toks[i]
            if t.t in ('use', 'type', 'extern'):
                while toks[i].t != ';':
                    i = match(toks, i) if toks[i].t in OPEN else i
                    i += 1
                i += 1
            elif t.t == 'mod':
                if toks[i + 2].t == ';':
                    i += 3
                else:
                    e = match(toks, i + 2)
                    if not skip:
                        self.items(toks[i + 3:e], None)
                    i = e + 1
            elif t.t in ('const', 'static'):
                j = i
                while toks[j].t != ';':
                    j = match(toks, j) if toks[j].t in OPEN else j
                    j += 1
                if not skip:
                    nm = toks[i + 1].t if toks[i + 1].t != 'mut' else toks[i + 2].t
                    key = (impl[1] + '::' if impl else '') + nm
                    if key in self.x.consts and [t.t for t in self.x.consts[key]] != [t.t for t in toks[i:j + 1]]:
                        self.x.const_dups.add(key)
                    self.x.consts[key] = toks[i:j + 1]
                i = j + 1
            elif t.t in ('struct', 'enum', 'union'):
                j = i
                while toks[j].t not in (';', '{'):
                    if toks[j].t == '(':
                        j = match(toks, j)
                    j += 1
                e = match(toks, j) if toks[j].t == '{' else j
                if not skip:
                    self.x.types[toks[i + 1].t] = toks[i:e + 1]
                    ds = []
                    for a in attrs:
                        if a.startswith('derive'):
                            ds += [s.strip() for s in a[a.index('(') + 1:a.rindex(')')].split(',')]
                    self.x.derives[toks[i + 1].t] = ds
                i = e + 1
            elif t.t == 'macro_rules':
                e = match(toks, i + 3)
                if not skip:
                    self.x.macros[toks[i + 2].t] = toks[i + 4:e]
                i = e + 1
                if i < n and toks[i].t == ';':
                    i += 1
            elif t.t == 'trait':
                j = i
                while toks[j].t != '{':
                    j += 1
                i = match(toks, j) + 1
                self.x.others.append(toks[start + 0].t)
            elif t.t == 'impl':
                j = i + 1
                gen = []
                if toks[j].t == '<':
                    e = match_angle(toks, j)
                    gen = toks[j:e + 1]
                    j = e + 1
                k = j
                forpos = None
                while toks[k].t != '{':
                    if toks[k].t == 'for' and forpos is None:
                        forpos = k
                    k += 1
                e = match(toks, k)
                if not skip:
                    if forpos is None:
                        tr, ty = None, toks[j:k]
                    else:
                        tr, ty = toks[j:forpos], toks[forpos + 1:k]
                    # drop where clauses
                    for q, tk in enumerate(ty):
                        if tk.t == 'where':
                            ty = ty[:q]
                            break
                    self.items(toks[k + 1:e], (gen, base_type(ty), ty, tr))
                i = e + 1
            elif t.t == 'fn':
                j = i
                while toks[j].t not in ('{', ';'):
                    if toks[j].t in ('(', '['):
                        j = match(toks, j)
                    j += 1
                if toks[j].t == ';':
                    i = j + 1
                else:
                    e = match(toks, j)
                    if not skip:
                        self.fn(toks[i:j], toks[j:e + 1], impl)
                    i = e + 1
            elif t.k == 'id' and i + 1 < n and toks[i + 1].t == '!':
                e = match(toks, i + 2)
                if not skip:
                    self.macro(t.t, toks[i + 3:e], impl)
                i = e + 1
                if i < n and toks[i].t == ';':
                    i += 1
            elif t.t == ';':
                i += 1
            else:
                self.x.problems.append('%s:%d: item starting with %r not understood' % (self.file, t.line, t.t))
                i += 1
            attrs = []

    def macro(self, name, args, impl):
        d = self.x.macros.get(name)
        if d is None:
            self.x.problems.append('%s: macro %s not found' % (self.file, name))
            return
        if d[0].t != '(':
            self.x.problems.append('macro %s: shape' % name)
            return
        e = match(d, 0)
        params = [p[1].t for p in split_commas(d[1:e])]
        if any(p[0].t != '$' for p in split_commas(d[1:e])):
            self.x.problems.append('macro %s: parameters' % name)
            return
        b = e + 1
        if d[b].t != '=>':
            self.x.problems.append('macro %s: shape' % name)
            return
        be = match(d, b + 1)
        if [t for t in d[be + 1:] if t.t != ';']:
            self.x.problems.append('macro %s: several arms' % name)
            return
        vals = dict(zip(params, split_commas(args)))
        out, i = [], b + 2
        while i < be:
            if d[i].t == '$' and d[i + 1].t in vals:
                v = vals[d[i + 1].t]
                for q, tk in enumerate(v):
                    out.append(Tok(tk.k, tk.t, d[i].line, d[i].ws if q == 0 else tk.ws))
                i += 2
            else:
                out.append(d[i])
                i += 1
        self.items(out, impl)

    def fn(self, sig, body, impl, parent=None):
        f = Fn()
        f.name = sig[1].t
        f.file, f.line = self.file, sig[0].line
        if impl:
            gen, base, ty, tr = impl
            f.impl_gen, f.impl_type, f.impl_ty, f.trait = gen, base, ty, tr
            if tr:
                f.id = '<%s as %s>::%s' % (norm(ty).replace(' ', ''), base_trait(tr), f.name)
            else:
                f.id = base + '::' + f.name
        else:
            f.impl_ty = None
            f.id = f.name
        if parent is not None:
            f.id = parent.id + '::' + f.name
            f.parent = parent
        f.sig, f.body = sig, body
        # hoist nested functions
        i = 1
        nb = []
        b = body
        nested = []
        nb.append(b[0])
        while i < len(b) - 1:
            t = b[i]
            if t.t == 'fn' and t.k == 'id' and b[i + 1].k == 'id' and b[i - 1].t in ('{', ';', '}'):
                j = i
                while b[j].t != '{':
                    if b[j].t in ('(', '['):
                        j = match(b, j)
                    j += 1
                e = match(b, j)
                nested.append((b[i:j], b[j:e + 1]))
                i = e + 1
                continue
            nb.append(t)
            i += 1
        nb.append(b[-1])
        f.body = nb
        f.nested = [s[1].t for s, _ in nested]
        self.x.add_fn(f)
        for s, bd in nested:
            self.fn(s, bd, impl, parent=f)


def base_trait(tr):
    s = norm(tr).replace(' ', '')
    for p in ('std::convert::', 'std::fmt::', 'std::error::'):
        s = s.replace(p, '')
    return s


def load(root):
    """index of every non-test source file of the crate"""
    x = Index()
    files = []
    for d, _, fs in os.walk(root):
        for f in fs:
            if f.endswith('.rs'):
                files.append(os.path.join(d, f))
    for f in sorted(files):
        rel = os.path.relpath(f, root)
        b = os.path.basename(rel)
        if b.startswith('tests') or '/tests/' in '/' + rel:
            continue
        toks = lex(open(f, encoding='utf-8').read())
        Parser(x, rel).items(toks)
    return x


if __name__ == '__main__':
    import sys
    x = load(sys.argv[1] if len(sys.argv) > 1 else '/repo/src')
    for k in x.fns:
        print(k)
    print(x.types.keys(), x.consts.keys(), x.macros.keys(), x.problems, x.dups)
