"""Mechanical extraction: cut the functions of /repo/src named by the contract
files, verbatim but for the rewriting rules listed in RULES, and put their
contracts next to them, giving one Verus source file per property."""
import os, re, sys
from rlex import lex, load, match, match_angle, norm, txt, Tok, OPEN, CLOSE, LexError, split_commas

RULES = {
    'R1 paths': 'crate, super, std module prefixes of a path are dropped (every extracted item lives in one flat module)',
    'R2 text': 'String and str are one opaque type VStr whose view is a sequence of chars; Path/PathBuf likewise VPath',
    'R3 std types': 'RefCell, RefMut, File, OpenOptions, BTreeSet, HashSet, HashMap, io::Error and the traits Write, AsRef are stand-ins with assumed contracts (contracts/prelude.rs)',
    'R4 iterators': '.iter() / .into_iter() become .viter() / .vinto_iter(), giving VIter (a sequence and a position) whose adapters carry assumed contracts; a for loop over anything but a range becomes a while loop over the VIter with the same body',
    'R5 closures': 'a pattern in a closure parameter becomes a variable and a let; the closure body is put in braces',
    'R6 constants': 'const items inside a function body, and those of the crate the contracts do not speak of, are substituted by their value; size_of of a primitive type is its size; string and byte-string literals become calls with the list of their characters / bytes',
    'R7 methods': 'trait-implementation functions other than From become inherent ones; nested functions are lifted out; `mut self` is a local copy; to_be_bytes, to_vec, to_owned and the other methods of METHODS (.expect(m) becomes .unwrap()) are called under a name of the prelude carrying their assumed contract',
    'R8 combinators': 'a curried call f(a)(b) is written f(a).call(b)',
    'R9 ref bindings': '`let ref mut x = e` is written `let x = &mut e`, or `let mut x = e` when x is only matched upon',
    'R10 derives': 'derived Clone and PartialEq are replaced by stand-ins specified as copy and equality',
    'R12 folds': '`E.fold(i, |acc, p| b)` is written `{ let mut acc = i; for p in E { acc = { b }; } acc }`',
    'R13 cell writes': 'the binding of a RefMut and the assignment through it become a call recording (cell, value) in a log parameter',
    'R14 ranges': '(a..b).f is written vrange(a, b).f; Rc::ptr_eq is a stand-in comparing snapshots, which include the identity of the cells',
    'R15 mutable find': '`E.iter_mut().find(|p: &&mut T| c)` is written `viter_mut_find(&mut E, |p: &T| c)`: the predicate cannot write through its argument',
    'R17 mutable slices': '`&mut E[a..b]` is written `E.vslice_mut(a, b)`, `&mut E[..]` is written `E.vslice_mut_all()`',
    'R18 byte arrays': '`x == &CONSTANT` is written `vbytes_eq(x, &CONSTANT)`',
    'R19 fallible collect': '`E.map(|p: T| { b; Ok((k, v)) }).collect()` as the value of a function is written as a loop over E with the body of the closure, inserting each pair: an error of the body is the error of the function, as collect gives it',
    'R16 consuming methods': 'a method taking `mut self` and marked so in its contract is written with `&mut self`, so that its contract can speak of the final state of what it consumes; the drop is not modelled',
    'R22 moving map': '`E.map(move |x: T| b).ok()` as the value of a function is written `match E { Ok(x) => Some(b), Err(_) => None }`',
    'R20 owned cells': 'in a function whose contract names the owner o of the cells it writes, `x.replace(v)` and `*x.borrow_mut() = v` are written `vcell_replace(x, v, &mut o)`: the owner is changed at every place that shares the cell',
    'R21 sized allocations': 'in the functions marked so, `vec![e; n]` and `Vec::with_capacity(n)` are written `valloc_repeat(e, n)` and `valloc_capacity(n)`, whose contracts ask that the number of bytes is one the file or the data at hand answers for',
    'R11 visibility': 'a raw identifier r#x is written raw_x; all items and fields are pub; attributes and comments are dropped',
}

PRIM_SIZE = {'i8': 1, 'u8': 1, 'i16': 2, 'u16': 2, 'i32': 4, 'u32': 4, 'f32': 4, 'f64': 8, 'i64': 8, 'u64': 8}

PATHS = [  # longest first
    ('std::io::ErrorKind', 'IoErrorKind'), ('std::io::Error', 'IoError'),
    ('std::fs::metadata', 'fs_metadata'),
    ('nom::error::ErrorKind', 'NomErrorKind'), ('nom::Err', 'NomErr'), ('nom::Needed', 'NomNeeded'),
    ('std::cmp::max', 'cmp_max'), ('std::cmp::min', 'cmp_min'),
    ('std::i32::MAX', 'i32::MAX'), ('std::u32::MAX', 'u32::MAX'), ('std::i64::MAX', 'i64::MAX'),
    ('std::u64::MAX', 'u64::MAX'), ('std::usize::MAX', 'usize::MAX'), ('std::i16::MAX', 'i16::MAX'),
]
MODS = {'crate', 'super', 'self', 'std', 'core', 'alloc', 'error', 'data_set', 'data_vector', 'data_type', 'dimension',
        'attribute', 'variable', 'io', 'parse_header_error', 'nom', 'fs', 'path', 'rc', 'convert', 'collections',
        'cell', 'string', 'name_string', 'file_reader', 'file_writer', 'version', 'borrow', 'vec', 'option', 'result', 'ops'}
IDENTS = {
    'String': 'VStr', 'str': 'VStr', 'Path': 'VPath', 'PathBuf': 'VPath', 'RefCell': 'VRefCell', 'RefMut': 'VRefMut',
    'File': 'VFile', 'OpenOptions': 'VOpenOptions', 'BTreeSet': 'VBTreeSet', 'HashSet': 'VHashSet',
    'HashMap': 'VHashMap', 'Write': 'VWrite',
}
METHODS = {
    'iter': 'viter', 'into_iter': 'vinto_iter', 'to_be_bytes': 'vto_be_bytes', 'to_vec': 'vto_vec', 'to_owned': 'vto_owned',
    'sort_by_key': 'vsort_by_key', 'extend': 'vextend', 'is_alphanumeric': 'vis_alphanumeric', 'is_ascii': 'vis_ascii',
    'cloned': 'vcloned',
}
KEYWORDS = {'if', 'while', 'match', 'return', 'in', 'for', 'let', 'else', 'move', 'mut', 'ref', 'as', 'fn', 'loop', 'break'}


class Degrade(Exception):
    pass


def T(t, ws=' ', line=0, k=None):
    if k is None:
        k = 'id' if re.match(r"^[A-Za-z_]", t) else ('num' if t[0].isdigit() else 'p')
    return Tok(k, t, line, ws)


def toks_of(s, line=0):
    out = lex(s)
    for t in out:
        t.line = line
    return out


def rw_paths(ts):
    out, i, n = [], 0, len(ts)
    while i < n:
        t = ts[i]
        if t.k == 'id' and i + 1 < n and ts[i + 1].t == '::' and (not out or out[-1].t not in ('::', '.')):
            # collect the path
            segs, j = [t], i
            while j + 2 < n and ts[j + 1].t == '::' and ts[j + 2].k == 'id':
                j += 2
                segs.append(ts[j])
            full = '::'.join(s.t for s in segs)
            done = False
            for a, b in PATHS:
                if full == a or full.startswith(a + '::'):
                    rest = full[len(a):]
                    new = toks_of(b + rest, t.line)
                    new[0].ws = t.ws
                    for q in new[1:]:
                        q.ws = ''
                    out += new
                    i = j + 1
                    done = True
                    break
            if done:
                continue
            # size_of::<T>()
            if segs[-1].t == 'size_of' and j + 1 < n and ts[j + 1].t == '::' and ts[j + 2].t == '<':
                e = match_angle(ts, j + 2)
                ty = norm(ts[j + 3:e])
                if ty in PRIM_SIZE and ts[e + 1].t == '(' and ts[e + 2].t == ')':
                    out.append(Tok('num', '%dusize' % PRIM_SIZE[ty], t.line, t.ws))
                    i = e + 3
                    continue
                raise Degrade('size_of::<%s>' % ty)
            k = 0
            while k < len(segs) - 1 and segs[k].t in MODS:
                k += 1
            for q, s in enumerate(segs[k:]):
                if q:
                    out.append(T('::', ''))
                out.append(Tok('id', s.t, s.line, t.ws if q == 0 else ''))
            i = j + 1
            continue
        out.append(t)
        i += 1
    return out


def rw_idents(ts):
    out = []
    for i, t in enumerate(ts):
        if t.k == 'id':
            if i and ts[i - 1].t == '.' and t.t in METHODS:
                out.append(Tok('id', METHODS[t.t], t.line, t.ws))
                continue
            if t.t in IDENTS and not (i and ts[i - 1].t == '.'):
                # enum constructors etc. never carry these names in this crate
                out.append(Tok('id', IDENTS[t.t], t.line, t.ws))
                continue
        out.append(t)
    # AsRef<str> / AsRef<Path>
    s, i = [], 0
    while i < len(out):
        if out[i].t == 'AsRef' and out[i + 1].t == '<':
            e = match_angle(out, i + 1)
            inner = norm(out[i + 2:e])
            nm = {'VStr': 'VAsRefStr', 'VPath': 'VAsRefPath'}.get(inner)
            if nm is None:
                raise Degrade('AsRef<%s>' % inner)
            s.append(Tok('id', nm, out[i].line, out[i].ws))
            i = e + 1
            continue
        s.append(out[i])
        i += 1
    return s


def unescape(tok):
    """characters of a string literal / bytes of a byte string literal"""
    t = tok.t
    b = t.startswith('b')
    if b:
        t = t[1:]
    if t.startswith('r'):
        h = t.index('"') - 1
        body = t[2 + h:len(t) - 1 - h]
        return list(body)
    body = t[1:-1]
    out, i = [], 0
    esc = {'n': '\n', 't': '\t', 'r': '\r', '0': '\0', '\\': '\\', '"': '"', "'": "'"}
    while i < len(body):
        if body[i] == '\\':
            c = body[i + 1]
            if c in esc:
                out.append(esc[c]); i += 2
            elif c == 'x':
                out.append(chr(int(body[i + 2:i + 4], 16))); i += 4
            elif c == 'u':
                e = body.index('}', i)
                out.append(chr(int(body[i + 3:e].replace('_', ''), 16))); i = e + 1
            elif c == '\n':
                i += 2
                while i < len(body) and body[i].isspace():
                    i += 1
            else:
                raise Degrade('escape')
        else:
            out.append(body[i]); i += 1
    return out


def rw_literals(ts):
    out = []
    skip = 0
    for q, t in enumerate(ts):
        if skip:
            skip -= 1
            continue
        if t.k == 'bstr' and [x.t for x in ts[q + 1:q + 4]] == ['[', '..', ']'] and out and out[-1].t == '&':
            out.pop()
            skip = 3
        if t.k == 'str':
            cs = unescape(t)
            s = 'vstr_lit(&[%s])' % ', '.join(repr_char(c) for c in cs)
            new = toks_of(s, t.line)
            new[0].ws = t.ws
            out += new
        elif t.k == 'bstr':
            cs = unescape(t)
            s = '&[%s]' % ', '.join('0x%02xu8' % ord(c) for c in cs)
            new = toks_of(s, t.line)
            new[0].ws = t.ws
            out += new
        else:
            out.append(t)
    return out


def repr_char(c):
    if c == "'" or c == '\\':
        return "'\\%s'" % c
    if c.isprintable():
        return "'%s'" % c
    return "'\\u{%x}'" % ord(c)


def rw_inner_consts(body):
    """const NAME: T = EXPR; inside the body -> substitute"""
    subst, out, i = {}, [], 0
    while i < len(body):
        t = body[i]
        if t.t == 'const' and t.k == 'id' and body[i + 1].k == 'id' and body[i + 2].t == ':' and out and out[-1].t in ('{', ';', '}'):
            j = i
            eq = None
            while body[j].t != ';':
                if body[j].t in OPEN:
                    j = match(body, j)
                if body[j].t == '=' and eq is None:
                    eq = j
                j += 1
            subst[body[i + 1].t] = (body[i + 3:eq], body[eq + 1:j])
            i = j + 1
            continue
        out.append(t)
        i += 1
    if not subst:
        return out
    # constants may use earlier ones; patterns need literals
    res, i = [], 0
    for _ in range(3):
        res, changed = [], False
        for q, t in enumerate(out):
            if t.k == 'id' and t.t in subst and (q == 0 or out[q - 1].t not in ('.', '::')):
                ty, ex = subst[t.t]
                if len(ex) == 1:
                    res.append(Tok(ex[0].k, ex[0].t + (norm(ty) if ex[0].k == 'num' and ex[0].t.isdigit() else ''), t.line, t.ws))
                elif norm(ex) in ('u32::MAX', 'std :: u32 :: MAX', 'u32 :: MAX'):
                    res += toks_of(' u32::MAX', t.line)
                else:
                    res.append(Tok('p', '(', t.line, t.ws))
                    res += [Tok(e.k, e.t, t.line, e.ws) for e in ex]
                    res.append(Tok('p', ')', t.line, ''))
                changed = True
            else:
                res.append(t)
        out = res
        if not changed:
            break
    return out


def rw_outer_consts(body, f, index):
    """a constant of the crate that is not emitted as such: substituted by its value"""
    local = {body[i + 1].t for i in range(len(body) - 1) if body[i].t in ('let', 'const', 'mut', '|') and body[i + 1].k == 'id'}

    def value(key, line, ws, depth):
        ts = index.consts.get(key)
        if ts is None or key in index.emitted or key in index.const_dups or depth > 4 or ts[0].t != 'const':
            return None
        eq, i = None, 0
        while i < len(ts):
            if ts[i].t in OPEN:
                i = match(ts, i)
            elif ts[i].t == '=':
                eq = i
                break
            i += 1
        if eq is None:
            return None
        ty, ex = norm([t for t in ts[3:eq]]), rw_paths([Tok(t.k, t.t, line, t.ws) for t in ts[eq + 1:-1]])
        if len(ex) == 1:
            x = ex[0]
            return [Tok(x.k, x.t + (ty if x.k == 'num' and x.t.isdigit() and ty in PRIM_SIZE or ty in ('usize', 'isize') and x.k == 'num' and x.t.isdigit() else ''), line, ws)]
        ex = run(ex, depth + 1)
        return [Tok('p', '(', line, ws)] + ex + [Tok('p', ')', line, '')]

    def run(ts, depth):
        out, i = [], 0
        while i < len(ts):
            t = ts[i]
            if t.k == 'id' and (not out or out[-1].t not in ('.', '::')):
                if i + 2 < len(ts) and ts[i + 1].t == '::' and ts[i + 2].k == 'id':
                    ty = f.impl_type if t.t == 'Self' else t.t
                    v = value('%s::%s' % (ty, ts[i + 2].t), t.line, t.ws, depth) if not (i + 3 < len(ts) and ts[i + 3].t in ('(', '::')) else None
                    if v is not None:
                        out += v
                        i += 3
                        continue
                elif t.t not in local:
                    v = value(t.t, t.line, t.ws, depth) if not (i + 1 < len(ts) and ts[i + 1].t in ('(', '!', ':')) else None
                    if v is not None:
                        out += v
                        i += 1
                        continue
            out.append(t)
            i += 1
        return out
    return run(body, 0)


def is_closure_start(ts, i):
    if ts[i].t not in ('|', '||'):
        return False
    if i == 0:
        return False
    p = ts[i - 1]
    if p.t in ('(', ',', '=', '{', ';', '=>', '&&', '||', '[', 'move', 'return', 'else', ':'):
        return True
    return False


def expr_end(ts, i):
    """end (exclusive) of a closure-body expression starting at i"""
    j = i
    while j < len(ts):
        t = ts[j]
        if t.k == 'p' and t.t in OPEN:
            j = match(ts, j) + 1
            continue
        if t.k == 'p' and (t.t in CLOSE or t.t in (',', ';')):
            return j
        j += 1
    return j


class FnOut:
    """one function, rewritten; text carries @@marks for overlay insertions"""


def find_closures(ts):
    out = []
    i = 0
    while i < len(ts):
        if is_closure_start(ts, i):
            out.append(i)
            if ts[i].t == '|':
                j = i + 1
                while ts[j].t != '|':
                    j = match(ts, j) if ts[j].t in ('(', '[') else j
                    j += 1
                i = j
        i += 1
    return out


def rw_closures(ts, ov, counter):
    """rewrite closures outermost first, numbering them in source order"""
    out, i = [], 0
    while i < len(ts):
        if not is_closure_start(ts, i):
            out.append(ts[i]); i += 1
            continue
        n = counter[0]
        counter[0] += 1
        st = ts[i]
        if st.t == '||':
            params, e = [], i
        else:
            e = i + 1
            while ts[e].t != '|':
                if ts[e].t in ('(', '['):
                    e = match(ts, e)
                e += 1
            params = split_commas(ts[i + 1:e])
        j = e + 1
        ret = None
        if ts[j].t == '->':
            k = j + 1
            while ts[k].t != '{':
                k += 1
            ret = norm(ts[j + 1:k])
            j = k
        if ts[j].t == '{':
            b_end = match(ts, j) + 1
            # a block followed by a method call would be part of the expression; not used here
            body = ts[j + 1:b_end - 1]
        else:
            b_end = expr_end(ts, j)
            body = ts[j:b_end]
        pre = []
        ptoks = []
        for q, p in enumerate(params):
            # split pattern : type at depth 0
            d, c = 0, None
            for z, tk in enumerate(p):
                if tk.t in ('(', '[', '<'):
                    d += 1
                elif tk.t in (')', ']', '>'):
                    d -= 1
                elif tk.t == ':' and d == 0:
                    c = z
                    break
            pat, ty = (p, None) if c is None else (p[:c], p[c + 1:])
            if q:
                ptoks.append(T(',', ''))
            if len(pat) == 1 and pat[0].k == 'id':
                nm = pat[0].t
                if nm == '_':
                    nm = '_p%d_%d' % (n, q)
            elif len(pat) == 2 and pat[0].t == 'ref':
                nm = '_p%d_%d' % (n, q)
                pre += [T('let', '\n'), Tok('id', pat[1].t, st.line, ' '), T('='), T('&'), T(nm, ''), T(';', '')]
            else:
                nm = '_p%d_%d' % (n, q)
                pre += [T('let', '\n')] + pat + [T('='), T(nm), T(';', '')]
            ptoks.append(Tok('id', nm, st.line, ' ' if q else ''))
            if ty is not None:
                ptoks.append(T(':', ''))
                ptoks += ty
        spec = ov.closures.get(n)
        body2 = rw_closures(body, ov, counter)
        out.append(Tok('p', '|', st.line, st.ws))
        out += ptoks
        out.append(T('|', ''))
        if spec is not None:
            ov.used.add(('closure', n))
            out.append(Tok('raw', spec.strip(), st.line, ' '))
        elif ret is not None:
            out.append(Tok('raw', '-> (r: %s)' % ret, st.line, ' '))
        out.append(Tok('p', '{', st.line, ' '))
        out += pre
        ex = ov.sections.get(('closurestart', n))
        if ex:
            out.append(Tok('raw', ex, st.line, '\n'))
        out += body2
        out.append(Tok('p', '}', st.line, ' '))
        i = b_end
    return out


def rmatch(ts, i):
    """index of the bracket opening the one closed at i"""
    d = 0
    while i >= 0:
        if ts[i].k == 'p' and ts[i].t in CLOSE:
            d += 1
        elif ts[i].k == 'p' and ts[i].t in OPEN:
            d -= 1
            if d == 0:
                return i
        i -= 1
    raise Degrade('unbalanced')


def rw_folds(ts):
    i = 0
    while i + 2 < len(ts):
        if ts[i].t == '.' and ts[i + 1].t == 'fold' and ts[i + 2].t == '(':
            e = match(ts, i + 2)
            args = split_commas(ts[i + 3:e])
            args = [a for a in args if a]
            # the closure's own commas were split: find it again
            c = next((q for q in range(i + 3, e) if is_closure_start(ts, q)), None)
            if c is None or ts[c].t != '|' or ts[c - 1].t != ',':
                raise Degrade('fold')
            init = ts[i + 3:c - 1]
            pe = c + 1
            while ts[pe].t != '|':
                if ts[pe].t in ('(', '['):
                    pe = match(ts, pe)
                pe += 1
            ps = [p for p in split_commas(ts[c + 1:pe]) if p]
            if len(ps) != 2:
                raise Degrade('fold parameters')
            acc, pat = ps
            if ':' in [t.t for t in pat]:
                q = [t.t for t in pat].index(':')
                pat = pat[:q]
            if acc[0].t == 'mut' or acc[0].k != 'id':
                raise Degrade('fold accumulator')
            body = ts[pe + 1:e]
            if body and body[-1].t == ',':
                body = body[:-1]
            if any(t.t == 'return' for t in body):
                raise Degrade('return in fold')
            # receiver
            j = i - 1
            while True:
                if ts[j].k == 'p' and ts[j].t in CLOSE:
                    j = rmatch(ts, j) - 1
                    if ts[j + 1].t == '(' and ts[j].k == 'id' and ts[j].t not in KEYWORDS:
                        pass
                    elif ts[j].t in ('.', '::'):
                        pass
                    else:
                        break
                    continue
                if (ts[j].k == 'id' and ts[j].t not in KEYWORDS) or ts[j].t in ('.', '::', '?'):
                    j -= 1
                    continue
                break
            recv = ts[j + 1:i]
            line = ts[i].line
            if recv:
                recv = [Tok(recv[0].k, recv[0].t, recv[0].line, ' ')] + list(recv[1:])
            nm = acc[0].t
            acc = [Tok(acc[0].k, nm, line, ' ')] + list(acc[1:])
            pat = [Tok(pat[0].k, pat[0].t, line, ' ')] + list(pat[1:])
            new = [T('{', ' ', line), T('let', ' ', line), T('mut', ' ', line)] + acc + [T('=', ' ', line)] + init + [T(';', '', line)]
            new += [T('for', ' ', line)] + pat + [T('in', ' ', line)] + recv + [T('{', ' ', line), T(nm, ' ', line), T('=', ' ', line)]
            new += [T('{', ' ', line)] + body + [T('}', ' ', line), T(';', '', line), T('}', ' ', line), T(nm, ' ', line), T('}', ' ', line)]
            return rw_folds(ts[:j + 1] + new + ts[e + 1:])
        i += 1
    return ts


def rw_fallible_collect(ts):
    """R19: E.map(|p: T| { b; Ok((k, v)) }).collect() at the end of the body"""
    core = list(ts)
    if core and core[0].t == '{' and match(core, 0) == len(core) - 1:
        return [core[0]] + rw_fallible_collect(core[1:-1]) + [core[-1]]
    n = len(core)
    if n < 8 or [t.t for t in core[n - 4:n]] != ['.', 'collect', '(', ')'] or core[n - 5].t != ')':
        return ts
    o = rmatch(core, n - 5)
    if core[o - 1].t != 'map' or core[o - 2].t != '.' or core[o + 1].t != '|':
        return ts
    pe = o + 2
    while core[pe].t != '|':
        if core[pe].t in ('(', '['):
            pe = match(core, pe)
        pe += 1
    pat = core[o + 2:pe]
    if ':' in [t.t for t in pat]:
        pat = pat[:[t.t for t in pat].index(':')]
    if core[pe + 1].t != '{' or match(core, pe + 1) not in (n - 6, n - 7):
        return ts
    body = core[pe + 2:match(core, pe + 1)]
    if any(t.t == 'return' for t in body):
        return ts
    # the tail Ok((k, v))
    if len(body) < 7 or body[-1].t != ')' or body[-2].t != ')':
        return ts
    a = rmatch(body, len(body) - 1)
    if body[a - 1].t != 'Ok' or body[a + 1].t != '(' or match(body, a + 1) != len(body) - 2:
        return ts
    kv = [x for x in split_commas(body[a + 2:len(body) - 2]) if x]
    if len(kv) != 2:
        return ts
    # the receiver: the statement it starts
    j, d = o - 3, 0
    while j >= 0:
        if core[j].k == 'p' and core[j].t in CLOSE and core[j].t != '}':
            j = rmatch(core, j) - 1
            continue
        if core[j].t in (';', '{', '}'):
            break
        j -= 1
    recv, line = core[j + 1:o - 2], core[o].line
    new = [T('let', ' ', line), T('mut', ' ', line), T('vcoll', ' ', line), T('=', ' ', line), T('VHashMap', ' ', line), T('::', '', line), T('new', '', line), T('(', '', line), T(')', '', line), T(';', '', line)]
    new += [T('for', '\n', line)] + list(pat) + [T('in', ' ', line)] + [Tok(recv[0].k, recv[0].t, recv[0].line, ' ')] + recv[1:] + [T('{', ' ', line)] + body[:a - 1]
    new += [T('vcoll', '\n', line), T('.', '', line), T('insert', '', line), T('(', '', line)] + kv[0] + [T(',', '', line)] + kv[1] + [T(')', '', line), T(';', '', line), T('}', '\n', line)]
    new += [T('Ok', '\n', line), T('(', '', line), T('vcoll', '', line), T(')', '', line)]
    return core[:j + 1] + new


def rw_move_map(ts):
    """R22: E.map(move |x: T| b).ok() as the value of the function: a closure giving out a borrow of what it captures"""
    core = list(ts)
    if core and core[0].t == '{' and match(core, 0) == len(core) - 1:
        return [core[0]] + rw_move_map(core[1:-1]) + [core[-1]]
    end = len(core)
    if end and core[end - 1].t == ';':
        end -= 1
    if end < 9 or [t.t for t in core[end - 4:end]] != ['.', 'ok', '(', ')'] or core[end - 5].t != ')':
        return ts
    o = rmatch(core, end - 5)
    if [t.t for t in core[o - 2:o]] != ['.', 'map'] or [t.t for t in core[o + 1:o + 3]] != ['move', '|']:
        return ts
    pe = o + 3
    while core[pe].t != '|':
        pe += 1
    pat = core[o + 3:pe]
    if ':' in [t.t for t in pat]:
        pat = pat[:[t.t for t in pat].index(':')]
    body = core[pe + 1:end - 5]
    if any(t.t == 'return' for t in body):
        return ts
    j = o - 3
    while j >= 0:
        if core[j].k == 'p' and core[j].t in CLOSE and core[j].t != '}':
            j = rmatch(core, j) - 1
            continue
        if core[j].t in (';', '{', '}', 'return'):
            break
        j -= 1
    recv, line = core[j + 1:o - 2], core[o].line
    new = [T('match', ' ', line), Tok(recv[0].k, recv[0].t, recv[0].line, ' ')] + recv[1:] + [T('{', ' ', line), T('Ok', ' ', line), T('(', '', line)] + list(pat)
    new += [T(')', '', line), T('=>', ' ', line), T('Some', ' ', line), T('(', '', line)] + body + [T(')', '', line), T(',', '', line), T('Err', ' ', line), T('(', '', line), T('_', '', line), T(')', '', line), T('=>', ' ', line), T('None', ' ', line), T('}', ' ', line)]
    return core[:j + 1] + new + core[end:]


def rw_iter_mut_find(ts):
    """R15: E.iter_mut().find(|p: &&mut T| c) -> viter_mut_find(&mut E, |p: &T| c)"""
    i = 0
    while i + 6 < len(ts):
        if [t.t for t in ts[i:i + 7]] == ['.', 'iter_mut', '(', ')', '.', 'find', '(']:
            j = i - 1
            while j >= 0 and ((ts[j].k == 'id' and ts[j].t not in KEYWORDS) or ts[j].t == '.'):
                j -= 1
            recv = ts[j + 1:i]
            e = match(ts, i + 6)
            inner = list(ts[i + 7:e])
            # the closure's parameter type
            q = next((q for q in range(len(inner)) if inner[q].t == 'mut' and inner[q - 1].t in ('&', '&&')), None)
            if q is None or not recv:
                raise Degrade('iter_mut().find')
            if inner[q - 1].t == '&&':
                inner[q - 1] = Tok('p', '&', inner[q - 1].line, inner[q - 1].ws)
                del inner[q]
            else:
                del inner[q - 1:q + 1]
            line = ts[i].line
            recv = [Tok(recv[0].k, recv[0].t, recv[0].line, ' ')] + list(recv[1:])
            ts = ts[:j + 1] + [T('viter_mut_find', ' ', line), T('(', ''), T('&', ''), T('mut', '')] + recv + [T(',', '')] + inner + ts[e:]
            i = j + 1
        i += 1
    return ts


def rw_loops(ts, ov, counter):
    out, i = [], 0
    while i < len(ts):
        t = ts[i]
        if t.k == 'id' and t.t in ('for', 'while', 'loop') and (not out or out[-1].t not in ('.', '::')):
            n = counter[0]
            counter[0] += 1
            inv = ov.loops.get(n, '')
            if inv:
                ov.used.add(('loop', n))
            lat = re.findall(r'#\[verifier::loop_isolation\(false\)\]', inv)
            inv = inv.replace('#[verifier::loop_isolation(false)]', '')
            ls = ''.join('broadcast use %s;\n' % x for x in ov.bcast) + ov.sections.get(('loopstart', n), '')
            le = ov.sections.get(('loopend', n), '')
            lb = ov.sections.get(('loopbefore', n), '')
            lz = ov.sections.get(('loopafter', n), '')
            lz = [Tok('raw', lz, t.line, '\n')] if lz else []
            if ls: ov.used.add(('loopstart', n))
            if le: ov.used.add(('loopend', n))
            if lb: ov.used.add(('loopbefore', n))
            if lb:
                out.append(Tok('raw', lb, t.line, '\n'))
            if lat and not (t.t == 'for' and '..' not in [x.t for x in ts[i:i + 40]][:([x.t for x in ts[i:]].index('{'))]):
                out.append(Tok('raw', lat[0], t.line, '\n'))
                lat = []
            if t.t == 'loop':
                e = match(ts, i + 1)
                out += [t, Tok('raw', inv, t.line, '\n'), T('{', '\n'), Tok('raw', ls, t.line, '\n')]
                out += rw_loops(ts[i + 2:e], ov, counter)
                out += [Tok('raw', le, t.line, '\n'), ts[e]] + lz
                i = e + 1
                continue
            if t.t == 'while':
                j = i + 1
                while ts[j].t != '{':
                    if ts[j].t in ('(', '['):
                        j = match(ts, j)
                    j += 1
                e = match(ts, j)
                out += ts[i:j] + [Tok('raw', inv, t.line, '\n'), T('{', '\n'), Tok('raw', ls, t.line, '\n')]
                out += rw_loops(ts[j + 1:e], ov, counter)
                out += [Tok('raw', le, t.line, '\n'), ts[e]] + lz
                i = e + 1
                continue
            # for PAT in EXPR {
            j = i + 1
            while not (ts[j].t == 'in' and ts[j].k == 'id'):
                if ts[j].t in ('(', '['):
                    j = match(ts, j)
                j += 1
            pat = ts[i + 1:j]
            k = j + 1
            rng = False
            while ts[k].t != '{':
                if ts[k].t in ('..', '..='):
                    rng = True
                if ts[k].t in ('(', '['):
                    k = match(ts, k)
                k += 1
            ex = ts[j + 1:k]
            e = match(ts, k)
            inner = rw_loops(ts[k + 1:e], ov, counter)
            if rng:
                if norm(pat) == '_':
                    pat = [T('_k%d' % n)]
                elif len(pat) != 1:
                    raise Degrade('range pattern')
                out += [t] + pat + [T('in')] + ex
                out += [Tok('raw', inv, t.line, '\n'), T('{', '\n'), Tok('raw', ls, t.line, '\n')] + inner
                out += [Tok('raw', le, t.line, '\n'), ts[e]] + lz
            else:
                it = '_it%d' % n
                out += [Tok('raw', 'let mut %s = vinto(' % it, t.line, '\n')] + ex + [Tok('raw', ');', t.line, '')]
                la = ov.sections.get(('loopinit', n), '')
                if la:
                    ov.used.add(('loopinit', n))
                    out.append(Tok('raw', la, t.line, '\n'))
                if lat:
                    out.append(Tok('raw', lat[0], t.line, '\n'))
                out += [Tok('raw', 'while %s.vhas_next()' % it, t.line, '\n'), Tok('raw', inv, t.line, '\n')]
                if 'decreases' not in inv:
                    if not inv.strip():
                        out.append(Tok('raw', 'invariant %s.idx() <= %s.seq().len(),' % (it, it), t.line, '\n'))
                    out.append(Tok('raw', 'decreases %s.seq().len() - %s.idx(),' % (it, it), t.line, '\n'))
                out += [T('{', '\n'), Tok('raw', 'let ', t.line, '\n')] + pat + [Tok('raw', '= %s.vnext();' % it, t.line, ' ')]
                out += [Tok('raw', ls, t.line, '\n')] + inner
                out += [Tok('raw', le, t.line, '\n'), ts[e]] + lz
            i = e + 1
            continue
        out.append(t)
        i += 1
    return out


def rw_curried(ts):
    """f(a)(b) -> f(a).call(b)"""
    out = []
    opens = []
    for i, t in enumerate(ts):
        if t.k == 'p' and t.t == '(' and out and out[-1].t == ')' and out[-1].k == 'p':
            o = out[-1].line2 if hasattr(out[-1], 'line2') else None
        if t.k == 'p' and t.t == '(':
            prev = out[-1] if out else None
            if prev is not None and prev.k == 'p' and prev.t == ')' and callee[len(out) - 1]:
                out.append(T('.', '')); out.append(T('call', ''))
            iscall = False
            if out:
                p = out[-1]
                iscall = (p.k == 'id' and p.t not in KEYWORDS) or p.t == '>' and False
            opens.append(iscall)
            out.append(t)
            continue
        if t.k == 'p' and t.t in ('[', '{'):
            opens.append(False)
        if t.k == 'p' and t.t in (']', '}'):
            opens.pop()
        if t.k == 'p' and t.t == ')':
            c = opens.pop()
            out.append(t)
            callee[len(out) - 1] = c
            continue
        out.append(t)
    return out


callee = {}


def rw_cells(ts):
    """R13, R14"""
    ts = list(ts)
    # let mut x [: T] = E.borrow_mut();  ...  *x = V;
    names = set()
    i = 0
    while i < len(ts):
        if ts[i].t == 'borrow_mut' and ts[i - 1].t == '.' and ts[i + 1].t == '(' and ts[i + 2].t == ')' and ts[i + 3].t == ';':
            j = i
            while ts[j].t != 'let' and ts[j].t not in (';', '{', '}'):
                j -= 1
            if ts[j].t != 'let':
                raise Degrade('borrow_mut')
            k = j + 1
            if ts[k].t == 'mut':
                k += 1
            eq = k
            while ts[eq].t != '=':
                eq += 1
            names.add(ts[k].t)
            new = [ts[j], ts[k], ts[eq], T('&', ' ', ts[j].line)] + ts[eq + 1:i - 1]
            ts = ts[:j] + new + ts[i + 3:]
            i = j
        i += 1
    out, i = [], 0
    while i < len(ts):
        if ts[i].t == '*' and i + 2 < len(ts) and ts[i + 1].t in names and ts[i + 2].t == '=' and out and out[-1].t in (';', '{', '}'):
            e = expr_end(ts, i + 3)
            out += [T('vcell_set', '\n', ts[i].line), T('(', ''), T(ts[i + 1].t, ''), T(',', '')] + ts[i + 3:e] + [T(',', ''), T('_log', ' '), T(')', '')]
            i = e
            continue
        if ts[i].t == '(' and i + 1 < len(ts):
            e = match(ts, i)
            if e + 1 < len(ts) and ts[e + 1].t == '.' and (not out or not (out[-1].k == 'id' and out[-1].t not in KEYWORDS or out[-1].t in (')', ']', '>'))):
                d, c = 0, None
                for q in range(i + 1, e):
                    if ts[q].k == 'p' and ts[q].t in OPEN:
                        d += 1
                    elif ts[q].k == 'p' and ts[q].t in CLOSE:
                        d -= 1
                    elif ts[q].t == '..' and d == 0:
                        c = q
                if c is not None:
                    out += [T('vrange', ts[i].ws, ts[i].line), T('(', '')] + ts[i + 1:c] + [T(',', '')] + ts[c + 1:e] + [T(')', '')]
                    i = e + 1
                    continue
        if ts[i].t == '.' and i + 2 < len(ts) and ts[i + 1].t == 'expect' and ts[i + 2].t == '(':
            e = match(ts, i + 2)
            out += [ts[i], T('unwrap', '', ts[i].line), T('(', ''), T(')', '')]
            i = e + 1
            continue
        if ts[i].t == 'Rc' and i + 2 < len(ts) and ts[i + 1].t == '::' and ts[i + 2].t == 'ptr_eq':
            out.append(T('vrc_ptr_eq', ts[i].ws, ts[i].line))
            i += 3
            continue
        out.append(ts[i])
        i += 1
    return out


def rw_cell_replace(ts, owner):
    """R20: x.replace(v), *x.borrow_mut() = v -> vcell_replace(x, v, &mut owner)"""
    out, i = [], 0
    while i < len(ts):
        e = None
        if ts[i].k == 'id' and i + 3 < len(ts) and ts[i + 1].t == '.' and ts[i + 2].t == 'replace' and ts[i + 3].t == '(' and (not out or out[-1].t not in ('.', '::')):
            q = match(ts, i + 3)
            a, x, e = ts[i + 4:q], ts[i], q + 1
        elif ts[i].t == '*' and [t.t for t in ts[i + 2:i + 7]] == ['.', 'borrow_mut', '(', ')', '='] and ts[i + 1].k == 'id' and out and out[-1].t in (';', '{', '}'):
            e = expr_end(ts, i + 7)
            a, x = ts[i + 7:e], ts[i + 1]
        if e is not None:
            out += [T('vcell_replace', ts[i].ws, ts[i].line), T('(', ''), T(x.t, '')] + [T(',', '')] + a + [T(',', ''), T('&', ' '), T('mut', ''), T(owner, ' '), T(')', '')]
            i = e
            continue
        out.append(ts[i])
        i += 1
    return out


def rw_allocs(ts):
    """R21"""
    out, i = [], 0
    while i < len(ts):
        if ts[i].t == 'vec' and i + 2 < len(ts) and ts[i + 1].t == '!' and ts[i + 2].t in ('[', '('):
            e = match(ts, i + 2)
            d, c = 0, None
            for q in range(i + 3, e):
                if ts[q].k == 'p' and ts[q].t in OPEN:
                    d += 1
                elif ts[q].k == 'p' and ts[q].t in CLOSE:
                    d -= 1
                elif ts[q].t == ';' and d == 0:
                    c = q
            if c is not None:
                out += [T('valloc_repeat', ts[i].ws, ts[i].line), T('(', '')] + ts[i + 3:c] + [T(',', '')] + ts[c + 1:e] + [T(')', '')]
                i = e + 1
                continue
        if ts[i].t == 'Vec' and [t.t for t in ts[i + 1:i + 4]] == ['::', 'with_capacity', '(']:
            out.append(T('valloc_capacity', ts[i].ws, ts[i].line))
            i += 3
            continue
        out.append(ts[i])
        i += 1
    return out


def rw_slices(ts):
    """R17, R18"""
    out, i = [], 0
    while i < len(ts):
        if ts[i].t == '&' and i + 2 < len(ts) and ts[i + 1].t == 'mut' and ts[i + 2].k == 'id':
            j = i + 3
            while j + 1 < len(ts) and ts[j].t == '.' and ts[j + 1].k == 'id':
                j += 2
            if j < len(ts) and ts[j].t == '[':
                e = match(ts, j)
                d, c = 0, None
                for q in range(j + 1, e):
                    if ts[q].k == 'p' and ts[q].t in OPEN:
                        d += 1
                    elif ts[q].k == 'p' and ts[q].t in CLOSE:
                        d -= 1
                    elif ts[q].t == '..' and d == 0:
                        c = q
                if c is not None:
                    a, b = ts[j + 1:c], ts[c + 1:e]
                    recv = [Tok(ts[i + 2].k, ts[i + 2].t, ts[i + 2].line, ts[i].ws)] + ts[i + 3:j]
                    if not a and not b:
                        out += recv + [T('.', ''), T('vslice_mut_all', ''), T('(', ''), T(')', '')]
                    elif a and b:
                        out += recv + [T('.', ''), T('vslice_mut', ''), T('(', '')] + a + [T(',', '')] + b + [T(')', '')]
                    else:
                        raise Degrade('half-open mutable slice')
                    i = e + 1
                    continue
        if ts[i].t == '==' and i + 2 < len(ts) and ts[i + 1].t == '&' and ts[i + 2].k == 'id' and re.match(r'^[A-Z][A-Z0-9_]+$', ts[i + 2].t) and out and out[-1].k == 'id' and (len(out) < 2 or out[-2].t not in ('.', '::')):
            x = out.pop()
            out += [T('vbytes_eq', x.ws), T('(', ''), Tok(x.k, x.t, x.line, ''), T(',', ''), ts[i + 1], ts[i + 2], T(')', '')]
            i += 3
            continue
        out.append(ts[i])
        i += 1
    return out


def rw_misc(ts):
    callee.clear()
    out = rw_curried(rw_slices(rw_cells(ts)))
    # let ref [mut] x [: T] = e
    res, i = [], 0
    while i < len(out):
        if out[i].t == 'let' and out[i + 1].t == 'ref':
            j = i + 2
            m = out[j].t == 'mut'
            if m:
                j += 1
            k = j
            while out[k].t != '=':
                k += 1
            # the written type is the type of the place; drop it
            nm = out[j].t
            e = expr_end(out, k + 1)
            d = 0
            uses = []
            for q in range(e, len(out)):
                if out[q].k == 'p' and out[q].t in OPEN:
                    d += 1
                elif out[q].k == 'p' and out[q].t in CLOSE:
                    d -= 1
                    if d < 0:
                        break
                elif out[q].t == nm and out[q - 1].t != '.':
                    uses.append(q)
            if m and all(out[q - 1].t in ('=', 'match') and out[q + 1].t == '{' for q in uses):
                res += [out[i], T('mut'), out[j], out[k]]
                i = k + 1
                continue
            res += [out[i], out[j], out[k], T('&')] + ([T('mut', '')] if m else [])
            i = k + 1
            continue
        res.append(out[i])
        i += 1
    return res


class Ov:
    def __init__(self, fid):
        self.id = fid
        self.spec = ''
        self.closures, self.loops, self.sections = {}, {}, {}
        self.before, self.after = [], []
        self.start = ''
        self.attr = ''
        self.ret = 'r'
        self.params = {}
        self.extra = ''
        self.rewrites = []
        self.external = None
        self.groups = []
        self.used = set()
        self.where = ''
        self.bcast = ()
        self.obcast = None
        self.hide = []
        self.selfref = False
        self.cells = None
        self.allocs = False

    def nclos(self):
        return len(self.closures)


def expand_for(src):
    """expands `@for a,b in x:y ...` ... `@endfor` blocks: one copy per value"""
    lines = src.split('\n')
    exp = []
    i = 0
    while i < len(lines):
        l = lines[i]
        m = re.match(r'^@for\s+([\w,]+)\s+in\s+(.*)$', l)
        if m:
            names = m.group(1).split(',')
            vals = [v.split(':') for v in m.group(2).split()]
            j = i + 1
            while lines[j].strip() != '@endfor':
                j += 1
            for v in vals:
                for b in lines[i + 1:j]:
                    for n, x in zip(names, v):
                        b = b.replace('%' + n + '%', x)
                    exp.append(b)
            i = j + 1
            continue
        exp.append(l)
        i += 1
    return exp


def parse_overlays(path):
    """returns dict id -> Ov, with @for templates expanded"""
    exp = expand_for(open(path).read())
    ovs = {}
    cur, sec, buf, fbcast, fallocs = None, None, [], None, False

    def flush():
        nonlocal buf
        if cur is None or sec is None:
            buf = []
            return
        text = '\n'.join(buf)
        k = sec[0]
        if k == 'spec':
            cur.spec += text
        elif k == 'closure':
            cur.closures[int(sec[1])] = text
        elif k == 'loop':
            cur.loops[int(sec[1])] = text
        elif k in ('loopstart', 'loopend', 'loopbefore', 'loopafter', 'loopinit', 'closurestart'):
            cur.sections[(k, int(sec[1]))] = text
        elif k == 'start':
            cur.start += text
        elif k in ('before', 'after'):
            getattr(cur, k).append((sec[1], text))
        elif k == 'external':
            cur.external = text.strip() or 'not attempted'
        buf = []
    for ln, l in enumerate(exp):
        m = re.match(r'^@(\w+)\s*(.*)$', l)
        if not m:
            buf.append(l)
            continue
        flush()
        k, rest = m.group(1), m.group(2).strip()
        if k == 'fn':
            cur = Ov(rest)
            cur.obcast = fbcast
            cur.allocs = fallocs
            cur.where = os.path.basename(path)
            if rest in ovs:
                raise SystemExit('overlay for %s given twice' % rest)
            ovs[rest] = cur
            sec = None
        elif k == 'attr':
            cur.attr += rest + '\n'
            sec = None
        elif k == 'ret':
            cur.ret = rest
            sec = None
        elif k == 'rewrite':
            a, b = rest.split('=>>')
            cur.rewrites.append((a.strip(), b.strip()))
            sec = None
        elif k == 'params':
            cur.extra = rest
            sec = None
        elif k == 'closures' or k == 'nloops':
            cur.sections[(k, 0)] = int(rest)
            sec = None
        elif k == 'hide':
            cur.hide += rest.split()
            sec = None
        elif k == 'bcast':
            # before the first @fn: for the whole file; after: for that function
            if cur is None:
                fbcast = rest.split()
            else:
                cur.obcast = rest.split()
            sec = None
        elif k == 'selfref':
            cur.selfref = True
            sec = None
        elif k == 'cells':
            cur.cells = rest
        elif k == 'allocs':
            if cur is None:
                fallocs = True
            else:
                cur.allocs = True
            sec = None
        elif k == 'c':
            sec = None
        elif k in ('spec', 'start', 'external'):
            sec = (k,)
        else:
            sec = (k, rest)
    flush()
    return ovs


def find_snip(ts, snip):
    want = [t.t for t in lex(snip)]
    nth = 0
    for i in range(len(ts)):
        if ts[i].t == want[0] and [x.t for x in ts[i:i + len(want)]] == want:
            return i, i + len(want)
    return None


def stmt_end(ts, i):
    """index after the ; or } ending the statement that contains i"""
    j = i
    while j < len(ts):
        if ts[j].t in OPEN and ts[j].k == 'p':
            e = match(ts, j)
            # a block at statement level ends the statement when followed by no operator
            j = e + 1
            continue
        if ts[j].t == ';':
            return j + 1
        if ts[j].t in CLOSE and ts[j].k == 'p':
            return j
        j += 1
    return j


def stmt_start(ts, i):
    j = i - 1
    d = 0
    while j >= 0:
        t = ts[j]
        if t.k == 'p':
            if t.t in CLOSE:
                d += 1
                if t.t == '}' and d == 1 and ts[j + 1].t not in ('.', '?', ')', ',', ';', '=>', 'else', '=='):
                    # possible end of a previous block statement
                    return j + 1
            elif t.t in OPEN:
                d -= 1
                if d < 0:
                    return j + 1
            elif t.t in (';', '=>') and d == 0:
                return j + 1
        j -= 1
    return 0


def emit_name(f):
    return f.id.split('::')[-1] if f.parent is None else '__'.join(f.id.split('::')[1:]) if f.impl_type else f.id.replace('::', '__')


def unit_name(f):
    """the name the verifier gives to the emitted function"""
    n = emit_name(f)
    n = 'raw_' + n[2:] if n.startswith('r#') else n
    return (f.impl_type + '::' if f.impl_type else '') + n


def all_rw(ts):
    return rw_idents(rw_literals(rw_misc(rw_paths(ts))))


def emit_fn(f, ov, index, external=False, bcast=()):
    """Verus text of function f under overlay ov. Returns list of (text, srcline)."""
    ov.used = set()
    sig = rw_idents(rw_paths(f.sig))
    body = rw_inner_consts(f.body)
    body = rw_outer_consts(rw_paths(body), f, index)
    # nested function calls -> lifted names
    top = f
    lifted = {}
    p = f
    while p is not None:
        for nm in getattr(p, 'nested', []):
            lifted[nm] = ('%s::' % p.impl_type if p.impl_type else '') + '__'.join(p.id.split('::')[1 if p.impl_type else 0:] + [nm])
        p = p.parent
    if lifted:
        nb = []
        for i, t in enumerate(body):
            if t.k == 'id' and t.t in lifted and body[i + 1].t == '(' and body[i - 1].t not in ('.', '::'):
                new = toks_of(lifted[t.t], t.line)
                new[0].ws = t.ws
                nb += new
            else:
                nb.append(t)
        body = nb
    # `use Enum::*;` in a body is kept
    soft = []     # what of the contract's inner text has no place in this body: the function is then verified without it
    for a, b in ov.rewrites:
        pos = find_snip(body, a)
        if pos is None:
            soft.append('rewrite anchor `%s` not found' % a)
            continue
        new = toks_of(b, body[pos[0]].line)
        new[0].ws = body[pos[0]].ws
        body = body[:pos[0]] + new + body[pos[1]:]
    if ov.allocs:
        body = rw_allocs(body)
    if ov.cells:
        body = rw_cell_replace(body, ov.cells)
    body = rw_move_map(rw_fallible_collect(rw_iter_mut_find(rw_folds(body))))
    nclos = len(find_closures(body))
    want = ov.sections.get(('closures', 0))
    if ov.closures and want is None:
        want = max(ov.closures) + 1
    if not external and want is not None and nclos != want:
        soft.append('%d closures in the function, contracts written for %d' % (nclos, want))
    nl = sum(1 for i, t in enumerate(body) if t.k == 'id' and t.t in ('for', 'while', 'loop'))
    wantl = ov.sections.get(('nloops', 0))
    if wantl is None and ov.loops:
        wantl = max(ov.loops) + 1
    if not external and wantl is not None and nl != wantl:
        soft.append('%d loops in the function, contracts written for %d' % (nl, wantl))
    if not external and wantl is None and nl > 0 and ov.spec.strip():
        soft.append('%d loops in the function, contracts written for 0' % nl)
    # proof hints, anchored on the original token text
    if not external:
        marks = []
        for snip, text in ov.before:
            pos = find_snip(body, strip_q(snip))
            if pos is None:
                soft.append('anchor `%s` not found' % snip)
                continue
            marks.append((stmt_start(body, pos[0]), text))
        for snip, text in ov.after:
            pos = find_snip(body, strip_q(snip))
            if pos is None:
                soft.append('anchor `%s` not found' % snip)
                continue
            marks.append((stmt_end(body, pos[0]), text))
        for at, text in sorted(marks, key=lambda m: -m[0]):
            body = body[:at] + [Tok('raw', text, 0, '\n')] + body[at:]
    if not external:
        index.soft.pop(f.id, None)
        if soft:
            index.soft[f.id] = soft[0]
    ret = find_ret(sig)
    head = ret[0]
    # name
    head = [t for t in head]
    head[1] = Tok('id', emit_name(f), head[1].line, ' ')
    # drop visibility already outside; handle mut self
    mutself = False
    ps = [i for i, t in enumerate(head) if t.t == '(']
    po = ps[0]
    if head[po + 1].t == 'mut' and head[po + 2].t == 'self':
        if ov.selfref:
            head = head[:po + 1] + [T('&', '')] + head[po + 1:]
        else:
            del head[po + 1]
            head[po + 1].ws = ''
            mutself = True
    elif ov.selfref and head[po + 1].t == 'self':
        head = head[:po + 1] + [T('&', ''), T('mut', '')] + head[po + 1:]
    if ov.extra:
        e = match(head, po)
        comma = [] if head[e - 1].t in ('(', ',') else [T(',', '')]
        head = head[:e] + comma + [Tok('raw', ov.extra, f.line, ' ')] + head[e:]
    out = []
    body_mid = body[1:-1]
    if external:
        attr = '#[verifier::external_body]\n'
        btext = '{ unimplemented!() }'
    else:
        attr = ov.attr
        b = body_mid
        if ov.obcast is not None:
            bcast = ov.obcast
        ov.bcast = bcast
        b = rw_loops(b, ov, [0])
        b = rw_closures(b, ov, [0])
        b = rw_misc(b)
        b = rw_literals(b)
        b = rw_idents(b)
        if mutself:
            b = [Tok('id', 'self_', t.line, t.ws) if t.k == 'id' and t.t == 'self' else t for t in b]
            b = [Tok('raw', 'let mut self_ = self;', f.line, '\n')] + b
        btext = '{\n' + ''.join('hide(%s);\n' % x for x in ov.hide) + ''.join('broadcast use %s;\n' % x for x in bcast) + (ov.start + '\n' if ov.start else '') + txt(b) + '\n}'
    rett = ''
    if ret[1] is not None:
        rett = ' -> (%s: %s)' % (ov.ret, txt(ret[1]))
    where = (' ' + txt(ret[2])) if ret[2] else ''
    s = attr + 'pub ' + txt(head) + rett + where + '\n' + ov.spec.rstrip() + '\n' + btext
    if f.impl_ty is not None:
        if f.trait and base_is_from(f.trait):
            s = s.replace('pub fn', 'fn', 1)
            s = 'impl%s %s for %s {\n%s\n}' % (txt(f.impl_gen), txt(rw_idents(rw_paths(f.trait))), txt(rw_idents(rw_paths(f.impl_ty))), s)
        else:
            ity = f.impl_ty
            if f.trait:   # `Self::Error` in a trait implementation
                s = re.sub(r'Self\s*::\s*Error', "&'static VStr", s)
            s = 'impl%s %s {\n%s\n}' % (txt(f.impl_gen), txt(rw_idents(rw_paths(ity))), s)
    return s


def strip_q(s):
    s = s.strip()
    if s.startswith('`') and s.endswith('`'):
        return s[1:-1]
    return s


def base_is_from(tr):
    return norm(tr).replace(' ', '').replace('std::convert::', '').startswith('From<')


def find_ret(sig):
    """split signature tokens into (head up to closing paren, return type or None, where)"""
    i = 2
    if sig[i].t == '<':
        i = match_angle(sig, i) + 1
    e = match(sig, i)
    rest = sig[e + 1:]
    where = None
    for q, t in enumerate(rest):
        if t.t == 'where':
            rest, where = rest[:q], rest[q:]
            break
    if rest and rest[0].t == '->':
        return list(sig[:e + 1]), rest[1:], where
    return list(sig[:e + 1]), None, where


def pub_fields(ts):
    """make struct fields pub (enum fields are public)"""
    ts = [t for t in ts]
    # drop attributes and visibility
    out, i = [], 0
    while i < len(ts):
        if ts[i].t == '#' and ts[i + 1].t == '[':
            i = match(ts, i + 1) + 1
            continue
        if ts[i].t == 'pub':
            i += 1
            if ts[i].t == '(' :
                i = match(ts, i) + 1
            continue
        out.append(ts[i])
        i += 1
    ts = out
    if ts[0].t == 'struct':
        b = next((i for i, t in enumerate(ts) if t.t in ('{', '(', ';')), None)
        if ts[b].t == '{':
            e = match(ts, b)
            fields = split_commas(ts[b + 1:e])
            s = txt(ts[:b]) + ' {\n' + ',\n'.join('    pub ' + txt(f) for f in fields if f) + ',\n}'
            return 'pub ' + s
        if ts[b].t == '(':
            e = match(ts, b)
            return 'pub ' + txt(ts[:b]) + '(' + ', '.join('pub ' + txt(f) for f in split_commas(ts[b + 1:e])) + ');'
    return 'pub ' + txt(ts)


def discriminants(ts):
    """explicit discriminants: fieldless enum -> list of (name, value)"""
    return None


def emit_type(name, index):
    ts = rw_idents(rw_paths(index.types[name]))
    d = index.derives.get(name, [])
    s = pub_fields(ts)
    rep = ''
    gen = ''
    if ts[0].t == 'struct' or ts[0].t == 'enum':
        if ts[2].t == '<':
            gen = txt(ts[2:match_angle(ts, 2) + 1])
    out = s + '\n'
    if 'Clone' in d:
        out += ('impl%s Clone for %s%s {\n    #[verifier::external_body]\n    fn clone(&self) -> (r: Self) ensures r == *self '
                '{ unimplemented!() }\n}\n') % (gen, name, gen)
    if 'PartialEq' in d:
        out += ('impl%s PartialEq for %s%s {\n    #[verifier::external_body]\n    fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() }\n}\n'
                'impl%s vstd::std_specs::cmp::PartialEqSpecImpl for %s%s {\n    open spec fn obeys_eq_spec() -> bool { true }\n'
                '    open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o }\n}\n') % (gen, name, gen, gen, name, gen)
    return out


def emit_const(name, index):
    ts = index.consts[name]
    # const NAME : T = EXPR ;   ([x; N] is written out, R6)
    n = len(ts)
    if ts[n - 1].t == ';' and ts[n - 2].t == ']' and ts[n - 4].t == ';' and ts[n - 6].t == '[' and ts[n - 3].t.isdigit() and int(ts[n - 3].t) <= 64:
        ts = ts[:n - 5] + toks_of(', '.join([ts[n - 5].t] * int(ts[n - 3].t)), ts[0].line) + ts[n - 2:]
    s = txt(rw_literals(rw_idents(rw_paths(ts))))
    return s


def callees(f, index):
    """over-approximation of the crate functions called by f"""
    res = set()
    b = rw_paths(f.body)
    byname = index.byname
    p = f
    local = {}
    while p is not None:
        for nm in getattr(p, 'nested', []):
            local[nm] = p.id + '::' + nm
        p = p.parent
    for i, t in enumerate(b):
        if t.k != 'id' or i + 1 >= len(b):
            continue
        nxt = b[i + 1].t
        prev = b[i - 1].t
        if prev == '::' and b[i - 2].k == 'id':
            ty = b[i - 2].t
            if ty == 'Self':
                ty = f.impl_type
            c = '%s::%s' % (ty, t.t)
            if c in index.fns:
                res.add(c)
            else:
                for fid in byname.get(t.t, ()):
                    g = index.fns[fid]
                    if g.trait and g.impl_type == ty:
                        res.add(fid)
        elif prev == '.' and nxt in ('(', '::'):
            for fid in byname.get(t.t, ()):
                g = index.fns[fid]
                if g.impl_type and not g.trait and has_self(g):
                    res.add(fid)
        elif nxt == '(' and prev != '.':
            if t.t in local:
                res.add(local[t.t])
            elif t.t in index.fns:
                res.add(t.t)
    return res


def has_self(g):
    po = next(i for i, t in enumerate(g.sig) if t.t == '(')
    e = match(g.sig, po)
    return any(t.t == 'self' for t in g.sig[po:min(e, po + 5)])


def index_repo(root):
    x = load(root)
    x.byname = {}
    for fid, f in x.fns.items():
        x.byname.setdefault(f.name, []).append(fid)
    return x
