"""Generate the Verus file of a property, run Verus, read its verdicts."""
import json, os, re, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import extract as X
from rlex import txt, LexError

CON = os.path.join(VERIF, 'contracts')
BASE_TYPES = ['DataType', 'DimensionType', 'Version', 'DataVector', 'Attribute', 'DimensionSize', 'Dimension', 'Variable', 'DataSet',
              'InvalidDataSet']
BASE_CONSTS = ['NC_MAX_NAME_SIZE', 'NC_MAX_DIM_SIZE', 'NC_MAX_VAR_DIMS', 'NC_FILL_I8', 'NC_FILL_U8', 'NC_FILL_I16', 'NC_FILL_I32', 'NC_FILL_F32', 'NC_FILL_F64']


def area_files(areas):
    return [os.path.join(CON, 't_%s.vx' % a) for a in areas]


class Gen:
    def __init__(self, repo='/repo'):
        self.repo = repo
        self.index = X.index_repo(os.path.join(repo, 'src'))
        self.props = json.load(open(os.path.join(CON, 'props.json')))

    def overlays(self, areas):
        ovs = {}
        for p in area_files(areas):
            if os.path.exists(p):
                for k, v in X.parse_overlays(p).items():
                    if k in ovs:
                        raise SystemExit('overlay for %s in two areas' % k)
                    ovs[k] = v
        return ovs

    def resolve(self, pats, ovs):
        """function ids matching the patterns: an id, a prefix ending in `*`, or @area for all contracts of an area"""
        out = []
        for r in pats:
            if r.startswith('@'):
                ks = list(X.parse_overlays(os.path.join(CON, 't_%s.vx' % r[1:])))
            elif r.endswith('*'):
                ks = [k for k in ovs if k.startswith(r[:-1])]
            else:
                ks = [r]
            out += [k for k in ks if k not in out]
        return out

    def closure(self, roots, ovs):
        seen, todo, unknown = [], list(roots), {}
        while todo:
            f = todo.pop(0)
            if f in seen:
                continue
            seen.append(f)
            if f not in self.index.fns:
                continue
            o = ovs.get(f)
            if o is not None and o.external is not None:
                continue
            if o is None:
                continue
            for c in sorted(X.callees(self.index.fns[f], self.index)):
                if c not in ovs:
                    unknown.setdefault(f, []).append(c)
                    continue
                if c not in seen:
                    todo.append(c)
        return seen, unknown

    @staticmethod
    def join(pieces):
        out, lmap, line = [], [], 1
        for tag, s in pieces:
            s = re.sub(r'\br#(\w+)', r'raw_\1', s.rstrip('\n')) + '\n'
            n = s.count('\n')
            lmap.append((line, line + n - 1, tag))
            line += n
            out.append(s)
        return ''.join(out), lmap

    def split(self, pieces, exts, n):
        """the same file n times: each function and each lemma is verified in exactly one of them, and in the others only its contract is there"""
        if n <= 1:
            return [self.join(pieces)]
        wp = os.path.join(CON, 'weights.json')
        w = json.load(open(wp)) if os.path.exists(wp) else {}
        units = []
        for i, (tag, s) in enumerate(pieces):
            if tag.startswith(('fn:', 'vac:')):
                # a function of the default precision costs about what its text costs
                units.append((w.get(tag, 60 + len(s) / 20.0), i, tag, None))
            elif tag.startswith(('spec:', 'prelude:')):
                for m in re.finditer(r'^([ \t]*)((?:pub\s+)?(?:broadcast\s+)?proof\s+fn\s+(\w+))', s, re.M):
                    units.append((w.get('lemma:' + m.group(3), 100), i, tag, m.group(3)))
        n = max(1, min(n, int(sum(u[0] for u in units) / 3000) + 1))
        load, where = [0.0] * n, {}
        for u in sorted(units, key=lambda u: (-u[0], u[1], u[3] or '')):
            k = load.index(min(load))
            load[k] += u[0]
            where[(u[1], u[3])] = k
        res = []
        for k in range(n):
            ps = []
            for i, (tag, s) in enumerate(pieces):
                if tag.startswith('fn:') and where[(i, None)] != k:
                    ps.append(('ext:' + tag[3:], exts[tag[3:]]))
                elif tag.startswith('vac:') and where[(i, None)] != k:
                    continue
                elif tag.startswith(('spec:', 'prelude:')):
                    ps.append((tag, re.sub(r'^([ \t]*)((?:pub\s+)?(?:broadcast\s+)?proof\s+fn\s+(\w+))', lambda m: m.group(0) if where[(i, m.group(3))] == k else m.group(1) + '#[verifier::external_body] ' + m.group(2), s, flags=re.M)))
                else:
                    ps.append((tag, s))
            res.append(self.join(ps))
        return res

    def generate(self, areas, roots, degraded=(), vacuity=False, nshards=1):
        """returns dict(text, linemap, fns, degraded, missing, unknown)"""
        ovs = self.overlays(areas)
        allroots = self.resolve(roots, ovs)
        for a in areas:
            allroots += [k for k in self.props['areas'].get(a, {}).get('always', []) if k not in allroots]
        fns, unknown = self.closure(allroots, ovs)
        conf = self.props['areas']
        bcast = []
        types, consts, specs = list(BASE_TYPES), list(BASE_CONSTS), []
        for a in areas:
            c = conf.get(a, {})
            types += c.get('types', [])
            consts += c.get('consts', [])
            bcast += c.get('broadcast', [])
            specs += c.get('specs', ['spec_%s.rs' % a])
        pieces = []   # (tag, text)
        pieces.append(('head', 'use vstd::prelude::*;\nuse std::rc::Rc;\n#[allow(unused_imports)]\nuse vstd::std_specs::cmp::*;\nverus! {\n'))
        for a in areas:
            for p in conf.get(a, {}).get('preludes', []):
                pieces.append(('prelude:' + p, '\n'.join(X.expand_for(open(os.path.join(CON, p)).read()))))
        problems = []
        for t in types:
            if t not in self.index.types:
                problems.append('type %s not found' % t)
                continue
            try:
                pieces.append(('type:' + t, X.emit_type(t, self.index)))
            except (X.Degrade, LexError, IndexError, StopIteration) as e:
                problems.append('type %s: %s' % (t, e))
        self.index.emitted = set(consts)
        for c in consts:
            if c not in self.index.consts:
                problems.append('constant %s not found' % c)
                continue
            pieces.append(('const:' + c, 'pub ' + X.emit_const(c, self.index) + '\n'))
        for s in specs:
            pth = os.path.join(CON, s)
            if os.path.exists(pth):
                pieces.append(('spec:' + s, '\n'.join(X.expand_for(open(pth).read()))))
        deg = dict(degraded) if not isinstance(degraded, (list, tuple, set)) else {k: 'degraded' for k in degraded}
        missing = {}
        under = []
        for fid in fns:
            ov = ovs.get(fid)
            f = self.index.fns.get(fid)
            if f is None:
                missing[fid] = 'function not found in the sources'
                continue
            if fid in self.index.dups:
                deg.setdefault(fid, 'defined twice')
            ext = fid in deg
            if ov.external is not None:
                ext = True
            try:
                s = X.emit_fn(f, ov, self.index, external=ext, bcast=bcast)
            except (X.Degrade, LexError, IndexError, StopIteration) as e:
                deg[fid] = 'not translated: %s' % (e,)
                try:
                    s = X.emit_fn(f, ov, self.index, external=True)
                except (X.Degrade, LexError, IndexError, StopIteration) as e2:
                    missing[fid] = 'signature not translated: %s' % (e2,)
                    continue
            if ov.external is not None and not fid in deg:
                pieces.append(('ext:' + fid, s))
            else:
                if fid not in deg:
                    under.append(fid)
                pieces.append((('deg:' if fid in deg else 'fn:') + fid, s))
        vac = []
        if vacuity:
            for fid in fns:
                if fid in deg or fid in missing or ovs[fid].external is not None:
                    continue
                v = self.vacuity(fid, ovs[fid])
                if v:
                    vac.append(fid)
                    pieces.append(('vac:' + fid, v))
        pieces.append(('tail', '} // verus!\nfn main() {}\n'))
        text, lmap = self.join(pieces)
        exts = {}
        if nshards > 1:
            for fid in under:
                exts[fid] = X.emit_fn(self.index.fns[fid], ovs[fid], self.index, external=True)
        return dict(text=text, linemap=lmap, shards=self.split(pieces, exts, nshards), fns=fns, under=under, degraded=deg, missing=missing, unknown=unknown,
                    problems=problems, external={f: ovs[f].external for f in fns if ovs.get(f) and ovs[f].external is not None}, vac=vac, ovs=ovs)

    def vacuity(self, fid, ov):
        """the same precondition with a conclusion that must be refused"""
        if 'requires' not in ov.spec:
            return None
        f = self.index.fns[fid]
        m = re.search(r'\bensures\b|\bdecreases\b', ov.spec)
        req = ov.spec[:m.start()] if m else ov.spec
        o2 = X.Ov(fid)
        o2.spec = req + '\n    ensures false,'
        o2.extra = ov.extra
        s = X.emit_fn(f, o2, self.index, external=True)
        nm = X.emit_name(f)
        s = s.replace('#[verifier::external_body]\n', '#[verifier::exec_allows_no_decreases_clause]\n')
        s = re.sub(r'fn\s+%s\b' % re.escape(nm), 'fn vac_%s' % re.sub(r'\W', '_', nm), s, count=1)
        s = s.replace('{ unimplemented!() }', '{ proof { assert(false); } loop {} }')
        if 'fn from' in s or ' for ' in s.split('{')[0]:
            return None
        return s


def tag_at(lmap, line):
    for a, b, t in lmap:
        if a <= line <= b:
            return t, a
    return 'unknown', 0


def run_verus(path, rlimit=60, timeout=600, extra=()):
    cmd = ['verus', path, '--output-json', '--time-expanded', '--rlimit', str(rlimit), '--multiple-errors', '3', '--triggers-mode', 'silent', '--error-format=json', '--smt-option', 'timeout=60000'] + list(extra)
    t0 = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True, cwd=os.path.dirname(path))
        out, err, rc = p.stdout, p.stderr, p.returncode
    except subprocess.TimeoutExpired as e:
        return dict(rc=-1, timeout=True, errors=[], wall=time.time() - t0, json=None, raw='timeout')
    j = None
    try:
        j = json.loads(out)
    except ValueError:
        m = re.search(r'\{.*\}', out, re.S)
        if m:
            try:
                j = json.loads(m.group(0))
            except ValueError:
                pass
    errs = []
    for l in err.split('\n'):
        l = l.strip()
        if not l.startswith('{'):
            continue
        try:
            d = json.loads(l)
        except ValueError:
            continue
        if d.get('level') != 'error':
            continue
        spans = d.get('spans', [])
        if not spans and 'aborting due to' in d.get('message', ''):
            continue
        errs.append(dict(msg=d['message'], code=(d.get('code') or {}).get('code') if d.get('code') else None,
                         spans=[dict(line=s['line_start'], end=s['line_end'], primary=s['is_primary'], label=s.get('label') or '',
                                     text=' '.join(x['text'].strip() for x in s.get('text', [])[:3])) for s in spans],
                         rendered=d.get('rendered', '')))
    return dict(rc=rc, timeout=False, errors=errs, wall=time.time() - t0, json=j, raw=err[-4000:] if not errs and j is None else '')


def run_shards(shards, path, **kw):
    """runs the verifier on every part at once and puts the results together"""
    from concurrent.futures import ThreadPoolExecutor
    ps = []
    for k, (text, _) in enumerate(shards):
        p = path if len(shards) == 1 else re.sub(r'\.rs$', '_%d.rs' % k, path)
        open(p, 'w').write(text)
        ps.append(p)
    t0 = time.time()
    with ThreadPoolExecutor(len(ps)) as ex:
        rs = list(ex.map(lambda p: run_verus(p, **kw), ps))
    errs, seen, units, vir, raw, timeout, where = [], set(), {}, False, '', False, {}
    for (text, lmap), v, pth in zip(shards, rs, ps):
        res = (v['json'] or {}).get('verification-results') or {}
        bad = v['json'] is None or res.get('encountered-vir-error') or (res.get('encountered-error') and not res.get('verified'))
        vir = vir or bool(bad)
        timeout = timeout or v['timeout']
        raw = raw or v['raw']
        for e in v['errors']:
            e['tags'] = [tag_at(lmap, s['line'])[0] for s in sorted(e['spans'], key=lambda s: not s['primary'])]
            e['vir'] = bool(bad)
            key = (e['msg'], tuple(e['tags']), tuple(s['text'] for s in e['spans']))
            if key not in seen:
                seen.add(key)
                errs.append(e)
        try:
            for m in v['json']['times-ms']['smt']['smt-run-module-times']:
                for d in m.get('function-breakdown', []):
                    nm = d['function'].split('::', 1)[-1]
                    o = units.get(nm, (True, 0))
                    units[nm] = (o[0] and d['success'], o[1] + d['time-micros'])
                    if nm not in where or not d['success']:
                        where[nm] = (pth, lmap)
        except (KeyError, TypeError):
            pass
    return dict(errors=errs, vir=vir, units=units, where=where, raw=raw, timeout=timeout, wall=time.time() - t0, nojson=any(v['json'] is None for v in rs))


def isolated(where, unit, rlimit, timeout, seeds=(None, 7, 23)):
    """verifies one function or lemma by itself, with several solver seeds: what is proved once is proved. Returns its errors"""
    path, lmap = where
    first = None
    for sd in seeds:
        v = run_verus(path, rlimit=rlimit, timeout=timeout, extra=['--verify-root', '--verify-function', unit] + (['--smt-option', 'smt.random_seed=%d' % sd] if sd is not None else []))
        res = (v['json'] or {}).get('verification-results') or {}
        if v['json'] is not None and not v['errors'] and res.get('verified', 0) >= 1:
            return []
        if first is None and v['errors']:
            first = v['errors']
    for e in first or []:
        e['tags'] = [tag_at(lmap, s['line'])[0] for s in sorted(e['spans'], key=lambda s: not s['primary'])]
    return first or [dict(msg='not verified', spans=[], tags=[], rendered='not verified by itself')]


if __name__ == '__main__':
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('areas')
    ap.add_argument('roots', nargs='*')
    ap.add_argument('--repo', default='/repo')
    ap.add_argument('-o', default='/tmp/vx/out.rs')
    ap.add_argument('--rlimit', default=30)
    ap.add_argument('--vac', action='store_true')
    ap.add_argument('-n', action='store_true')
    ap.add_argument('--only', default=None)
    ap.add_argument('--max', type=int, default=12)
    a = ap.parse_args()
    g = Gen(a.repo)
    areas = a.areas.split(',')
    roots = a.roots or ['*']
    r = g.generate(areas, roots, vacuity=a.vac)
    open(a.o, 'w').write(r['text'])
    print('under contract %d, degraded %s, missing %s, unknown callees %s, problems %s' % (len(r['under']), r['degraded'], r['missing'], r['unknown'], r['problems']))
    if not a.n:
        v = run_verus(a.o, rlimit=a.rlimit, extra=(['--verify-root', '--verify-function', a.only] if a.only else []))
        for e in v['errors'][:a.max]:
            pl = [s['line'] for s in e['spans'] if s['primary']] or [0]
            print('-----', tag_at(r['linemap'], pl[0])[0], '\n', e['rendered'][:1800])
        if v['raw']:
            print(v['raw'])
        if v['json']:
            print(v['json'].get('verification-results'), 'errors', len(v['errors']))
        print('wall %.1f' % v['wall'])
