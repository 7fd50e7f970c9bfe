"""Library-call lowering, file assembly and cone computation on top of extract.Fn (see extract.py for what the extraction changes)."""
import json, os, re, difflib
from extract import *
import extract
V_ = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

NATIVE_EQ = {'Ordering', 'BISign', 'bool', 'char'}
def tname(t):
    t = strip(t)
    if isinstance(t, str): return t
    if 'adt' in t: return t['adt'].split('::')[-1]
    return json.dumps(t)

class Translator:
    def fnames(self):
        if self._fn is None: self._fn = {x[a] for x in self.specs.values() for a in ('name', 'zname') if x.get(a)}
        return self._fn
    def __init__(self, dump, specs, baseline):
        self.fns = {}
        for f in dump['fns']:
            if f['path'] not in self.fns: self.fns[f['path']] = f
        self.generic = {}
        for f in list(self.fns.values()):
            if f['path'].startswith(('rand::', '<rand::')) and any(g + '::<T>' in f['path'] or g + '<T>' in f['path'] for g in GENERIC) and 'Clone' not in f['path']:
                self.generic[f['path']] = f
                for ty in ('u32', 'usize', 'u64'): self.mono(f['path'], {'T': ty})
        self.adts = dump['adts']
        self.specs = specs; self.baseline = baseline; self.need = set()
        self._fn = None
        self.short = {}
        for p in self.fns: self.short.setdefault(self.norm(p), p)
    # ---- generic functions of the generators: one copy per integer type (and per seed type), as rustc makes them
    def mono(self, path, sub):
        key = path + ''.join('@' + (x if isinstance(x, str) else x['adt'].split('::')[-1]) for x in sub.values())
        if key in self.fns: return key
        def go(x):
            if isinstance(x, list): return [go(v) for v in x]
            if isinstance(x, dict):
                if 'param' in x and x['param'] in sub: return sub[x['param']]
                y = {k: go(v) for k, v in x.items()}
                if 'targs' in y and y.get('res') is None and y['targs']:
                    t0 = y['targs'][0]
                    if y['fn'].startswith('rand::PrimitiveType::') and isint(t0): y['res'] = '<%s as rand::PrimitiveType>::%s' % (t0, y['fn'].split('::')[-1]); y['reslocal'] = True
                    if y['fn'] == 'rand::Seed::seed' and isadt(t0, 'OnceSeed'): y['res'] = '<rand::lagged_fibonacci_rand::OnceSeed<T> as rand::Seed<T>>::seed'; y['reslocal'] = True
                return y
            return x
        g = dict(go({k: v for k, v in self.generic[path].items() if k != 'path'}), path=key)
        self.fns[key] = g
        return key
    def instance(self, path, targs):
        if path.startswith('<'): sub = {'T': targs[-1]}
        else:
            sub = {'T': targs[0]}
            if len(targs) > 1 and 'adt' in targs[1]: sub['Sd'] = targs[1]
        if not isint(sub['T']): raise Unsupported('instance of ' + path)
        return self.mono(path, sub)
    def structdefs(self, names):
        o = []
        for a in self.adts:
            n = a['path'].split('::')[-1]
            if n not in GENERIC: continue
            for ty in ('u32', 'usize', 'u64'):
                if '%s_%s' % (n, ty) not in names: continue
                def go(x):
                    if isinstance(x, list): return [go(v) for v in x]
                    if isinstance(x, dict): return ty if x.get('param') == 'T' else {k: go(v) for k, v in x.items()}
                    return x
                fs = [(f['name'], vt(go(f['ty']))) for f in a['variants'][0]['fields']]
                o.append('%spub struct %s_%s { %s }' % ('' if any(t.startswith('Vec<') for _, t in fs) else '#[derive(Clone, Copy)] ', n, ty, ', '.join('pub %s: %s' % x for x in fs)))
        return o
    @staticmethod
    def norm(p): return p
    # ---- spec text
    def body_text(self, t):
        t = self.hidx(t)
        t = re.sub(r'\bO\b', 'h0', t)
        return re.sub(r'\bH\b', 'h@', t)
    def sig_text(self, t, post, pure):
        old = 'h@' if pure else 'old(h)@'; new = 'h@' if pure else ('final(h)@' if post else 'old(h)@')
        t = self.hidx(t)
        return re.sub(r'\bO\b', old, re.sub(r'\bH\b', new, t))
    def hidx(self, t):
        """NAME[[expr]] -> NAME[(expr) as int]"""
        while True:
            m = re.search(r'\b(\w+)\[\[', t)
            if not m: return t
            i = m.end(); d = 0; j = i
            while True:
                if t[j] == '[': d += 1
                elif t[j] == ']':
                    if d == 0 and t[j + 1] == ']': break
                    d -= 1
                j += 1
            t = t[:m.end() - 1] + '(%s) as int]' % t[i:j] + t[j + 2:]
    def occ(self, fn, vid):
        n = 0
        st = [fn['body']]
        while st:
            x = st.pop()
            if isinstance(x, dict):
                if x.get('k') == 'var' and x.get('id') == vid: n += 1
                st += [v for k, v in x.items() if k not in ('ty', 'f')]
            elif isinstance(x, list): st += x
        return n
    # ---- helpers for lowering
    def vec(self, F, v):
        """resolve a reference to a Vec: ('cell', text) | ('nat', place text, type)"""
        while v.k == 'ref':
            p = v.p
            if p.k in ('val', 'sym'): v = p.v; continue
            if p.k == 'rebind': return ('cell', p.s, None)
            if p.k in ('var', 'field', 'lvar'):
                t = p.t
                if not isinstance(t, str) and is_cell(t): return ('cell', p.s, None)
                return ('nat', p.s, t if isinstance(t, str) and t.startswith('Vec<') else vt(t))
            if p.k == 'elem':
                if is_cell(p.t): return ('cell', F.lettmp('%s[%s]' % (p.vs, p.i)), None)
                return ('nat', '%s[%s]' % (p.vs, p.i), vt(p.t))
            raise Unsupported('vec place ' + p.k)
        if v.k == 'cell': return ('cell', v.s, None)
        if v.k == 'sc' and v.t.startswith('Vec<'): return ('nat', v.s, v.t)
        if v.k == 'sl': return ('sl', v, None)
        if v.k in ('bytes', 'arr') or (v.k == 'sc' and v.t.startswith('[')): return ('x', v, None)
        raise Unsupported('vec value ' + v.k)
    def vlen(self, F, v):
        k, s, t = self.vec(F, v)
        if k == 'cell': return F.lettmp('h.len(%s)' % s)
        if k == 'sl': return sub(s.hi, s.lo)
        if k == 'nat': return '%s.len()' % s
        if s.k == 'bytes': return '%dusize' % s.n
        if s.k == 'arr': return '%dusize' % len(s.l)
        return s.t[s.t.rindex(';') + 1:-1].strip() + 'usize'
    def slot(self, F, v, i):
        k, s, t = self.vec(F, v)
        if k == 'cell': return P('slot', c=s, i=i)
        if k == 'sl': return P('slot', c=s.c, i=add(s.lo, i))
        if k == 'nat': return P('elem', vs=s, i=i, t=F.rust_t(t[4:-1]))
        if s.k == 'sc': return P('elem', vs=s.s, i=i, t=F.rust_t(s.t[1:s.t.rindex(';')]))
        raise Unsupported('element of ' + s.k)
    def slice_of(self, F, v, lo=None, hi=None):
        k, s, t = self.vec(F, v)
        if k == 'cell':
            n = F.lettmp('h.len(%s)' % s)
            c = s if F.stable(s) else F.lettmp(s)
            l, u = lo or '0usize', hi or n
            if lo or hi: F.emit('%s(%s <= %s && %s <= %s);' % (F.chk(), l, u, u, n))
            return V('sl', c=c, lo=l, hi=u)
        if k == 'sl':
            l = add(s.lo, lo) if lo else s.lo; u = add(s.lo, hi) if hi else s.hi
            if lo or hi: l = l if simple(l) else F.lettmp(l); u = u if simple(u) else F.lettmp(u); F.emit('%s(%s <= %s && %s <= %s);' % (F.chk(), l, u, u, s.hi))
            return V('sl', c=s.c, lo=l, hi=u)
        if lo is None and hi is None: return v
        raise Unsupported('subslice')
    def toit(self, F, v):
        w = v
        while w.k == 'ref' and w.p.k in ('sym', 'val') and w.p.v.k in ('it', 'ref', 'rngit', 'chars'): w = w.p.v
        if w.k in ('it', 'rngit'): return w
        if w.k == 'range':
            lo, hi, ty = w.lo.s if w.lo else None, w.hi.s if w.hi else None, (w.lo or w.hi).t
            if hi is None: raise Unsupported('open range iteration')
            lo, hi = [x if F.stable(x) and re.fullmatch(r'\w+', x) else F.lettmp(x) for x in (lo, hi)]
            inc = w.incl
            if ty == 'usize':
                if inc: n = F.lettmp('if %s <= %s { %s - %s + 1 } else { 0usize }' % (lo, hi, hi, lo), 'usize')
                else: n = hi if lo == '0usize' else F.lettmp('if %s <= %s { %s - %s } else { 0usize }' % (lo, hi, hi, lo), 'usize')
                return F.mkit(n, lambda i: sc(add(lo, i), 'usize'))
            if inc: raise Unsupported('inclusive range of ' + ty)
            n = F.lettmp('if %s <= %s { (%s - %s) as usize } else { 0usize }' % (lo, hi, hi, lo), 'usize')
            z = re.fullmatch(r'0\w+', lo)
            return F.mkit(n, lambda i: sc('(%s as %s)' % (i, ty) if z else '(%s + (%s as %s))' % (lo, i, ty), ty))
        return F.slice_it(w if w.k != 'ref' else self.unref(F, w))
    def unref(self, F, v):
        k, s, t = self.vec(F, v)
        if k == 'cell': return cell(s)
        if k == 'sl': return s
        if k == 'nat': return sc(s, t)
        return s
    def sopt(self, F, cond, pay): return V('sopt', cond=cond, pay=pay, done=True)
    # ---- comparison dispatch
    def cmp(self, F, op, a, b, ta, tb, e):
        ta, tb = strip(ta), strip(tb)
        if isinstance(ta, dict) and 'ptr' in ta: return F.binop({'eq': 'Eq', 'ne': 'Ne'}[op], a, b, ta)
        na, nb = tname(ta), tname(tb)
        if (isinstance(ta, str) and ta in INTS) or na in NATIVE_EQ or (isinstance(ta, dict) and 'param' in ta):
            x, y = F.deref_copy(a), F.deref_copy(b)
            o = {'eq': '==', 'ne': '!=', 'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>='}[op]
            if na in ('Ordering', 'BISign') and op not in ('eq', 'ne'): raise Unsupported('order on ' + na)
            return sc('(%s %s %s)' % (x.s, o, y.s), 'bool')
        if isinstance(ta, dict) and 'tuple' in ta:
            x, y = F.deref_copy(a), F.deref_copy(b)
            cs = [self.cmp(F, 'eq', p, q, t, u, e).s for p, q, t, u in zip(x.l, y.l, ta['tuple'], tb['tuple'])]
            s = '(' + ' && '.join(cs) + ')'
            return sc(s if op == 'eq' else '!' + s, 'bool')
        if isadt(ta, 'Vec') and is_cell(ta):
            s = F.lettmp('h.veq(%s, %s)' % (self.vec(F, a)[1], self.vec(F, b)[1]), 'bool')
            return sc(s if op == 'eq' else '!' + s, 'bool')
        if isadt(ta, 'Option'):
            x, y = F.deref_copy(a), F.deref_copy(b)
            x, y = [sc(F.lettmp(F.mat(v), vt(k)), vt(k)) if v.k == 'sopt' else v for v, k in ((x, ta), (y, tb))]
            s = 'opt_eq_%s(%s, %s)' % (re.sub(r'\W', '_', vt(ta)), F.mat(x), F.mat(y)); return sc(s if op == 'eq' else '!' + s, 'bool')
        def local(tr, m):
            full = ta['adt'] if isinstance(ta, dict) and 'adt' in ta else str(ta)
            rhs = '' if na == nb else '<%s>' % (tb if isinstance(tb, str) else tb['adt'])
            p = '<%s as core::cmp::%s%s>::%s' % (full, tr, rhs, m)
            if p not in self.fns: raise Unsupported('comparison impl ' + p)
            return p
        if op in ('eq', 'ne'):
            p = local('PartialEq', 'eq'); r = F.call_with(p, self.specs.get(p), [a, b], e)
            return sc(r.s if op == 'eq' else '(!%s)' % par(r.s), 'bool')
        p = local('PartialOrd', 'partial_cmp'); r = F.call_with(p, self.specs.get(p), [a, b], e)
        return sc('ord_%s(%s)' % (op, F.mat(r)), 'bool')
    # ---- text output: a Formatter is the flag `#` and the text written so far
    def fmtcall(self, F, base, m, e, f):
        a = e['args']
        if m == 'must_use': return F.expr(a[0])
        if base.startswith('core::fmt::rt::Argument::'):
            if not m.startswith('new_'): return None
            return V('farg', how=m[4:], t=f['targs'][0], v=F.expr(a[0]))
        if base.startswith('core::fmt::Arguments::'):
            if m.startswith('from_str'):
                v = F.deref_copy(F.expr(a[0])); return V('fargs', l=[v.v]) if v.k == 'strlit' else None
            x = a[0]
            while x['k'] in ('borrow', 'deref', 'coerce'): x = x['a']
            if x['k'] != 'bytestr': return None
            v = F.expr(a[1])
            while v.k == 'ref': v = F.read(v.p)
            if v.k not in ('arr', 'tup'): return None
            return V('fargs', l=self.template(bytes(x['v']), v.l))
        if base == 'alloc::fmt::format':
            v = F.expr(a[0])
            return sc(self.fmttext(F, v, e), 'Str') if v.k == 'fargs' else None
        if base.endswith('ToString::to_string'):
            if strip(a[0]['ty']) not in ('str',) and not isadt(strip(a[0]['ty']), 'String'): return None
            v = F.deref_copy(F.expr(a[0])); return sc(F.lettmp(F.mat(v), 'Str'), 'Str') if v.k in ('sc', 'strlit') else None
        fm = F.arg({'ref': {'adt': 'core::fmt::Formatter', 'args': []}, 'mut': True}, F.expr(a[0]), None)
        if m == 'alternate': return sc(F.lettmp('%s.alt' % fm.replace('&mut ', ''), 'bool'), 'bool')
        v = F.expr(a[1])
        if m == 'write_str': s = F.lettmp(F.mat(F.deref_copy(v)), 'Str')
        elif v.k == 'fargs': s = self.fmttext(F, v, e)
        else: raise Unsupported('format arguments')
        return sc(F.lettmp('fm_write(%s, %s)' % (fm, s), 'Result<(), Err>'), 'Result<(), Err>')
    def template(self, b, args):
        """decode the byte code of format_args! (core::fmt::Arguments): literal pieces and (argument, flags, width, precision)"""
        out = []; i = k = 0
        while b[i]:
            n = b[i]; i += 1
            if n < 0x80: out.append(b[i:i + n].decode()); i += n
            elif n == 0x80:
                n = b[i] + 256 * b[i + 1]; i += 2; out.append(b[i:i + n].decode()); i += n
            else:
                fl, w, p = 0xE0000020, 0, None
                if n & 1: fl = int.from_bytes(b[i:i + 4], 'little'); i += 4
                if n & 2: w = int.from_bytes(b[i:i + 2], 'little'); i += 2
                if n & 4: p = int.from_bytes(b[i:i + 2], 'little'); i += 2
                if n & 8: k = int.from_bytes(b[i:i + 2], 'little'); i += 2
                if n & 0x30: raise Unsupported('width from an argument')
                out.append((args[k], fl, w, p)); k += 1
        return out
    def fmttext(self, F, v, e):
        parts = []
        for x in v.l:
            if isinstance(x, str): parts.append(F.lettmp(strlit(x), 'Str')); continue
            g, fl, w, p = x
            while g.k == 'ref': g = F.read(g.p)
            if g.k != 'farg': raise Unsupported('format argument')
            t = strip(g.t); alt = bool(fl >> 23 & 1); zero = bool(fl >> 24 & 1)
            plain = (fl & ~(1 << 23 | 1 << 24 | 1 << 27 | 1 << 31)) == 0x60000020 and p is None
            if t == 'str' or isadt(t, 'String'):
                if g.how != 'display' or not plain or w: raise Unsupported('formatted text')
                parts.append(F.lettmp(F.mat(F.deref_copy(g.v)), 'Str'))
            elif t in ('u8', 'u16', 'u32', 'u64', 'usize'):
                b, up = {'display': (10, False), 'debug': (10, False), 'binary': (2, False), 'octal': (8, False), 'lower_hex': (16, False), 'upper_hex': (16, True)}.get(g.how, (0, False))
                if not b or not plain or alt or (w and not zero): raise Unsupported('integer format %s %x %s %s' % (g.how, fl, w, p))
                parts.append(F.lettmp('fmt_int(%s as u64, Ghost(%d), Ghost(%s), Ghost(%d))' % (par(F.mat(F.deref_copy(g.v))), b, 'true' if up else 'false', w), 'Str'))
            else:
                tr = {'display': 'Display', 'debug': 'Debug', 'binary': 'Binary', 'octal': 'Octal', 'lower_hex': 'LowerHex', 'upper_hex': 'UpperHex'}.get(g.how)
                path = '<%s as core::fmt::%s>::fmt' % (t.get('adt') if isinstance(t, dict) else t, tr)
                if path not in self.fns or not plain: raise Unsupported('formatting of ' + path)
                n = F.tmp() + '_fm'; F.mutn.add(n); F.emit('let mut %s = fm_new(%s);' % (n, 'true' if alt else 'false'))
                F.call_with(path, self.specs.get(path), [g.v, V('ref', p=P('var', s=n, t={'adt': 'core::fmt::Formatter', 'args': []}))], e)
                parts.append(F.lettmp('fm_text(&%s)' % n, 'Str'))
        if not parts: return F.lettmp(strlit(''), 'Str')
        s = parts[0]
        for x in parts[1:]: s = F.lettmp('str_add(%s, %s)' % (s, x), 'Str')
        return s
    # ---- the library
    def lib(self, F, base, res, e, f):
        a = e['args']; T = lambda k: a[k]['ty']
        m = re.sub(r'.*::', '', base)
        if base in ('core::fmt::Formatter::<\'a>::alternate', 'core::fmt::Formatter::<\'a>::write_fmt', 'core::fmt::Formatter::<\'a>::write_str', 'alloc::fmt::format', 'core::hint::must_use') or base.startswith('core::fmt::rt::Argument::') or re.match(r'core::fmt::Arguments::<.a>::(new|from_str|from_str_nonconst)$', base) or base.endswith('ToString::to_string'):
            n = len(F.out)
            try: r = self.fmtcall(F, base, m, e, f)
            except Unsupported:
                if base != 'alloc::fmt::format' or os.environ.get('FMTDBG'): raise
                r = None
            if r is not None: return r
            del F.out[n:]
        if base.startswith('core::fmt::') or base in ('alloc::fmt::format', 'core::hint::must_use') or base.endswith('ToString::to_string'): return V('fmt')
        if base in ('core::panicking::assert_failed', 'core::panicking::panic', 'core::panicking::panic_fmt', 'core::panicking::unreachable_default_msg', 'std::panicking::begin_panic', 'core::panicking::panic_const', 'core::panicking::unreachable_display') or base.startswith('core::panicking::'):
            F.emit('zpanic();' if F.z else 'vpanic();'); return NEVER
        if base == 'core::mem::size_of':
            t = f['targs'][0]; return sc('%dusize' % (INTS[t] // 8), 'usize') if t in INTS else F.bad('size_of')
        if base == 'alloc::boxed::box_assume_init_into_vec_unsafe':
            x = a[0]
            while x['k'] != 'array':
                if x['k'] == 'call' and x['f']['fn'].endswith('write_box_via_move'): x = x['args'][1]
                elif x['k'] == 'coerce': x = x['a']
                else: raise Unsupported('vec! form')
            vs = [F.deref_copy(v) for v in F.exprs(x['a'])]
            return self.mkvec(F, vs, e['ty'])
        if re.match(r'(bigint|rand)::\w+::\w*Error::new$', re.sub(r'::<.*?>', '', base)): return V('err')
        vs = F.exprs(a)
        # --- comparison
        if base.startswith('core::cmp::PartialEq::') or base.startswith('core::cmp::PartialOrd::'):
            if m in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'): return self.cmp(F, m, vs[0], vs[1], T(0), T(1), e)
            if m == 'partial_cmp': 
                p = '<%s as core::cmp::PartialOrd>::partial_cmp' % strip(T(0))['adt']
                if p in self.fns: return F.call_with(p, self.specs.get(p), vs, e)
        if base in ('core::cmp::min', 'core::cmp::max'):
            x, y = [v.s if simple(v.s) else F.lettmp(v.s) for v in (F.deref_copy(vs[0]), F.deref_copy(vs[1]))]
            return sc(F.lettmp('if %s %s %s { %s } else { %s }' % (x, '<=' if m == 'min' else '>', y, x, y), vt(e['ty'])), vt(e['ty']))
        if base.startswith('core::cmp::Ordering::'):
            x = F.deref_copy(vs[0])
            if m == 'reverse': return sc('ord_rev(%s)' % x.s, 'Ordering')
            if m == 'then_with':
                l, v = F.sub(lambda: F.call_clo(vs[1], []))
                return sc(F.lettmp('if %s == Ordering::Equal { %s %s } else { %s }' % (x.s, ' '.join(l), F.mat(v), x.s), 'Ordering'), 'Ordering')
        # --- identity-like
        if base in ('alloc::rcs::rc::Rc::<T>::new', 'core::cell::Cell::<T>::new', 'core::intrinsics::transmute', 'alloc::boxed::Box::<T>::new') or (m == 'into_iter' and 'IntoIterator' in base and not self.isvecval(vs[0])):
            if m == 'into_iter': return self.toit(F, vs[0])
            return vs[0]
        if m == 'into_iter': return self.toit(F, vs[0])
        if 'Deref' in base and m in ('deref', 'deref_mut'):
            t = strip(T(0))
            if isadt(t, 'Rc'): return vs[0]
            if isadt(t, 'Vec'): return self.slice_of(F, vs[0])
            if isadt(t, 'String'): return vs[0]
            raise Unsupported('deref of ' + tname(t))
        if res.endswith('<T as core::convert::From<T>>::from') or (base == 'core::convert::Into::into' and T(0) == e['ty']): return vs[0]
        if base == 'core::clone::Clone::clone':
            t = strip(T(0))
            if isadt(t, 'Rc'): return F.deref_copy(vs[0])
            if isadt(t, 'Vec'):
                k, s, ty = self.vec(F, vs[0])
                if k == 'cell': return cell(F.lettmp('h.dup(%s)' % s, 'usize'))
                return sc('vclone_%s(&%s)' % (ty[4:-1], s), ty)
            if isinstance(t, str) and t in INTS or isinstance(t, dict) and 'param' in t: return F.deref_copy(vs[0])
            raise Unsupported('clone of ' + tname(t))
        if base.startswith('core::cell::Cell'):
            if m == 'as_ptr': return V('cellptr', s=self.vec(F, vs[0])[1])
            if m == 'take' and isadt(strip(T(0))['args'][0], 'Option'):
                v = vs[0]
                while v.k == 'ref' and v.p.k in ('sym', 'val') and v.p.v.k == 'ref': v = v.p.v
                if v.k != 'ref' or v.p.k not in ('var', 'field', 'lvar'): raise Unsupported('Cell::take')
                n = F.lettmp(v.p.s, vt(e['ty'])); F.emit('%s = None;' % v.p.s); return sc(n, vt(e['ty']))
            if m == 'take': return cell(F.lettmp('h.take(%s)' % self.vec(F, vs[0])[1], 'usize'))
        # --- Vec
        if base.startswith('alloc::vec::Vec::') or base.startswith('core::slice::<impl') or base.startswith('alloc::slice::<impl') or base.startswith('core::array::') or base == 'core::convert::AsRef::as_ref':
            if m in ('with_capacity', 'new'): return self.mkvec(F, [], e['ty'])
            if m in ('reserve', 'capacity'): return UNIT if m == 'reserve' else sc(F.lettmp('any_usize()', 'usize'), 'usize')
            if m == 'len': return sc(self.vlen(F, vs[0]), 'usize')
            if m == 'is_empty': return sc('(%s == 0usize)' % self.vlen(F, vs[0]), 'bool')
            if m in ('as_slice', 'as_mut_slice', 'as_ref'): return self.slice_of(F, vs[0])
            if m in ('iter', 'iter_mut'): return self.toit(F, self.unref(F, vs[0]))
            k, s, ty = self.vec(F, vs[0])
            if m in ('as_ptr', 'as_mut_ptr'):
                if k == 'cell': return V('ptr', c=s, o='0usize')
                if k == 'sl': return V('ptr', c=s.c, o=s.lo)
                return V('lptr', base=s, o='0usize', t=ty)
            if m in ('last', 'last_mut', 'first', 'first_mut'):
                n = self.vlen(F, vs[0]); n = n if simple(n) else F.lettmp(n)
                i = (lambda: F.lettmp('%s - 1' % n)) if m.startswith('last') else (lambda: '0usize')
                return self.sopt(F, '%s > 0' % n, lambda: V('ref', p=self.slot(F, vs[0], i())))
            if m == 'push':
                x = F.mat(F.deref_copy(vs[1])); F.emit('h.push(%s, %s);' % (s, x) if k == 'cell' else '%s.push(%s);' % (s, x)); return UNIT
            if m == 'pop':
                F.emit('h.pop(%s);' % s if k == 'cell' else '%s.pop();' % s); return V('fmt')
            if m == 'clear': F.emit('h.clear(%s);' % s if k == 'cell' else '%s.clear();' % s); return UNIT
            if m == 'truncate': F.emit('h.truncate(%s, %s);' % (s, vs[1].s) if k == 'cell' else '%s.truncate(%s);' % (s, vs[1].s)); return UNIT
            if m == 'resize':
                F.emit('h.resize(%s, %s, %s);' % (s, vs[1].s, vs[2].s) if k == 'cell' else 'vresize_%s(&mut %s, %s, %s);' % (ty[4:-1], s, vs[1].s, vs[2].s)); return UNIT
            if m == 'extend_from_slice' and k == 'cell':
                x = self.slice_of(F, vs[1]); F.emit('h.extend(%s, %s, %s, %s);' % (s, x.c, x.lo, x.hi)); return UNIT
            if m in ('rotate_right', 'rotate_left'):
                if k == 'sl' and s.lo == '0usize': F.emit('h.%s(%s, %s);' % (m, s.c, vs[1].s)); return UNIT   # whole-vector slice
                if k == 'cell': F.emit('h.%s(%s, %s);' % (m, s, vs[1].s)); return UNIT
            if m == 'to_vec':
                x = self.slice_of(F, vs[0])
                if x.k == 'sl': return cell(F.lettmp('h.dup_range(%s, %s, %s)' % (x.c, x.lo, x.hi), 'usize'))
            if m == 'insert' and k == 'nat': F.emit('%s.insert(%s, %s);' % (s, vs[1].s, F.mat(F.deref_copy(vs[2])))); return UNIT
            if m in ('join', 'concat') and k == 'nat' and ty == 'Vec<Str>' and (m == 'concat' or F.deref_copy(vs[1]).k == 'strlit' and F.deref_copy(vs[1]).v == ''): return sc(F.lettmp('str_join(&%s)' % s, 'Str'), 'Str')
            if m == 'reverse' and k == 'nat': F.emit('vreverse(&mut %s);' % s); return UNIT
        if base == 'core::iter::traits::collect::Extend::extend':
            k, s, ty = self.vec(F, vs[0]); it = vs[1]
            if k == 'cell' and it.k == 'it' and getattr(it, 'whole', None): F.emit('h.extend(%s, %s, %s, %s);' % ((s,) + it.whole)); return UNIT
            return F.consume(self.toit(F, it), lambda x: (F.emit('h.push(%s, %s);' % (s, F.mat(F.deref_copy(x))) if k == 'cell' else '%s.push(%s);' % (s, F.mat(F.deref_copy(x)))), UNIT)[1])
        if base in ('core::ops::index::Index::index', 'core::ops::index::IndexMut::index_mut'):
            i = vs[1]
            if strip(T(0)) == 'str':
                if i.k == 'range' and i.lo and not i.hi: return sc(F.lettmp('str_from(%s, %s)' % (F.deref_copy(vs[0]).s, i.lo.s), 'Str'), 'Str')
                if i.k == 'range' and i.hi and not i.lo: return sc(F.lettmp('str_upto(%s, %s)' % (F.deref_copy(vs[0]).s, i.hi.s), 'Str'), 'Str')
                raise Unsupported('part of a string')
            if i.k == 'range': return self.slice_of(F, vs[0], i.lo.s if i.lo else None, i.hi.s if i.hi else None)
            return V('ref', p=self.slot(F, vs[0], i.s))
        # --- raw pointers
        if base.startswith('core::ptr::'):
            if m in ('as_ref', 'as_mut') and vs[0].k == 'cellptr': return self.sopt(F, 'true', lambda: V('ref', p=P('val', v=cell(vs[0].s))))
            if m in ('add', 'offset', 'sub'):
                p = vs[0]; n = F.deref_copy(vs[1]).s
                if m == 'offset':
                    mm = re.fullmatch(r'(\d+)isize', n)
                    n = mm.group(1) + 'usize' if mm else (self.need.add('cast_isize_usize') or 'isize_off(%s)' % n)
                if p.k == 'ptr': return V('ptr', c=p.c, o=add(p.o, n))
                if p.k == 'lptr': return V('lptr', base=p.base, o=add(p.o, n), t=p.t)
            if m == 'read':
                p = vs[0]
                if p.k == 'ptr':
                    x = F.lettmp('h.get(%s, %s)' % (p.c, p.o), 'u32')
                    if e['ty'] == 'i32': self.need.add('cast_u32_i32'); return sc('cast_u32_i32(%s)' % x, 'i32')
                    return sc(x, 'u32')
            if m == 'write' and vs[0].k == 'ptr':
                F.emit('h.set(%s, %s, %s);' % (vs[0].c, vs[0].o, F.mat(F.deref_copy(vs[1])))); return UNIT
            if base == 'core::ptr::copy' and vs[0].k == 'ptr':
                F.emit('h.copy(%s, %s, %s, %s, %s);' % (vs[0].c, vs[0].o, vs[1].c, vs[1].o, vs[2].s)); return UNIT
        # --- text
        if base == 'core::str::traits::FromStr::from_str' and strip(e['f']['targs'][0]) == 'f64': return F.demat(F.lettmp('str_f64(%s)' % F.deref_copy(vs[0]).s, 'Result<F64, Err>'), e['ty'])
        if base.startswith('core::str::<impl str>::') or base.startswith('alloc::str::<impl str>::'):
            s = F.stab(F.deref_copy(vs[0]))
            if m in ('len', 'is_empty'): return sc(F.lettmp('str_%s(%s)' % (m, s.s)), 'usize' if m == 'len' else 'bool')
            if m == 'chars': return self.withsrc(s.s, F.mkit(F.lettmp('str_chars(%s)' % s.s, 'usize'), lambda i: sc(F.lettmp('str_at(%s, %s)' % (s.s, i), 'char'), 'char')))
            if m == 'trim': return sc(F.lettmp('str_trim(%s)' % s.s, 'Str'), 'Str')
            if m == 'find' and vs[1].k == 'sc' and vs[1].t == 'char': return sc(F.lettmp('str_find(%s, %s)' % (s.s, vs[1].s), 'Option<usize>'), e['ty'])
            if m == 'trim_start_matches' and vs[1].k == 'sc' and vs[1].t == 'char': return sc(F.lettmp('str_trim_start(%s, %s)' % (s.s, vs[1].s), 'Str'), 'Str')
        if base.startswith('alloc::string::String::'):
            if m in ('with_capacity', 'new'):
                if vs and not simple(vs[0].s): F.lettmp(vs[0].s, 'usize')
                return sc(strlit(''), 'Str')
            r = vs[0]
            if m in ('reserve', 'shrink_to_fit'): return UNIT
            if m in ('len', 'is_empty'): return sc(F.lettmp('str_%s(%s)' % (m, F.mat(F.deref_copy(r)))), 'usize' if m == 'len' else 'bool')
            if m in ('as_str', 'as_mut_str'): return r
            if m in ('push', 'push_str', 'clear'):
                while r.k == 'ref' and r.p.k in ('sym', 'val'): r = r.p.v
                if r.k != 'ref': raise Unsupported('String place')
                if m == 'clear': F.assign(r.p, sc(strlit(''), 'Str')); return UNIT
                x = F.mat(F.deref_copy(vs[1])); c = F.mat(F.read(r.p))
                F.assign(r.p, sc(F.lettmp('%s(%s, %s)' % ('str_push' if m == 'push' else 'str_add', c, x), 'Str'), 'Str')); return UNIT
        if base.startswith('core::char::methods::<impl char>::') and m in ('is_ascii_digit', 'is_ascii_hexdigit'):
            return sc(F.lettmp('char_%s(%s)' % (m, F.deref_copy(vs[0]).s), 'bool'), 'bool')
        # --- Option / Result
        if base.startswith('core::option::Option'):
            o = vs[0]
            while o.k == 'ref': o = F.read(o.p) if o.p.k not in ('val', 'sym') else o.p.v
            if m == 'unwrap':
                if o.k == 'sopt':
                    if o.cond != 'true': F.emit('%s(%s);' % (F.chk(), o.cond))
                    return o.pay()
                return F.demat(F.lettmp('%s.unwrap()' % par(o.s), vt(e['ty'])), e['ty'])
            if m == 'unwrap_or':
                d = F.mat(F.deref_copy(vs[1])); x = o if o.k == 'sc' else sc(F.lettmp(F.mat(o)), vt(T(0)))
                return F.demat(F.lettmp('match %s { Some(x) => x, None => %s }' % (x.s, d), vt(e['ty'])), e['ty'])
            if m in ('is_some', 'is_none'):
                return sc('%s.%s()' % (par(o.s), m), 'bool') if o.k == 'sc' else sc(('(%s)' if m == 'is_some' else '!(%s)') % o.cond, 'bool')
            if m == 'map':
                x = o if o.k == 'sc' and simple(o.s) else sc(F.lettmp(F.mat(o)), vt(T(0)))
                l, v = F.sub(lambda: F.call_clo(vs[1], [F.demat('%s.unwrap()' % x.s, T(0)['args'][0])]))
                return sc(F.lettmp('if %s.is_some() { %s Some(%s) } else { None }' % (x.s, ' '.join(l), F.mat(v)), vt(e['ty'])), vt(e['ty']))
            if m == 'as_ref': return vs[0]
            if m == 'ok_or' and o.k == 'sc': return sc(F.lettmp('match %s { Some(x) => Ok(x), None => Result::Err(Err { e: 0 }) }' % o.s, vt(e['ty'])), vt(e['ty']))
        if base == 'rand::Seed::seed' and isint(f['targs'][1]):
            n = 'seed_' + f['targs'][1]; self.need.add(n); return sc(F.lettmp('%s(%s)' % (n, F.mat(F.deref_copy(vs[0]))), vt(e['ty'])), vt(e['ty']))
        if base == 'core::default::Default::default' and isint(e['ty']): return sc('0' + e['ty'], e['ty'])
        if base.startswith('core::result::Result'):
            o = F.deref_copy(vs[0])
            if m == 'map':
                x = o if simple(o.s) else sc(F.lettmp(o.s, o.t), o.t)
                l, v = F.sub(lambda: F.call_clo(vs[1], [F.demat('rok(%s)' % x.s, T(0)['args'][0])]))
                return sc(F.lettmp('if %s.is_ok() { %s Ok(%s) } else { Result::Err(Err { e: 0 }) }' % (x.s, ' '.join(l), F.mat(v)), vt(e['ty'])), vt(e['ty']))
            if m == 'unwrap': return F.demat(F.lettmp('rok(%s)' % o.s, vt(e['ty'])), e['ty'])
        # --- iterators
        if 'core::iter::traits::' in base or base.startswith('core::iter::'):
            w = vs[0]
            if m == 'next': return self.next(F, w)
            it = self.toit(F, w)
            if m == 'len' : return sc(it.len, 'usize')
            if it.k == 'rngit':
                if m == 'take' and it.n is None: return V('rngit', s=it.s, n=vs[1].s, err=it.err)
                raise Unsupported('iterator method %s on a random source' % m)
            if m == 'rev' and getattr(it, 'text', None): return self.withsrc(F.lettmp('str_rev(%s)' % it.text, 'Str'), F.mkit(it.len, lambda i: it.at(F.lettmp('%s - 1 - %s' % (it.len, i), 'usize'))))
            if m == 'rev': return F.mkit(it.len, lambda i: it.at(F.lettmp('%s - 1 - %s' % (it.len, i), 'usize')))
            if m == 'skip':
                n = vs[1].s; n = n if F.stable(n) and simple(n) else F.lettmp(n)
                ln = F.lettmp('if %s > %s { %s - %s } else { 0usize }' % (it.len, n, it.len, n), 'usize')
                return F.mkit(ln, lambda i: it.at(add(n, i)))
            if m == 'take':
                n = vs[1].s; n = n if F.stable(n) and simple(n) else F.lettmp(n)
                return F.mkit(F.lettmp('if %s < %s { %s } else { %s }' % (it.len, n, it.len, n), 'usize'), it.at)
            if m == 'zip':
                jt = self.toit(F, vs[1])
                ln = it.len if it.len == jt.len else F.lettmp('if %s < %s { %s } else { %s }' % (it.len, jt.len, it.len, jt.len), 'usize')
                return F.mkit(ln, lambda i: tup([it.at(i), jt.at(i)]))
            if m == 'enumerate': return F.mkit(it.len, lambda i: tup([sc(i, 'usize'), it.at(i)]))
            if m == 'step_by':
                n = vs[1].s; mm = re.fullmatch(r'(\d+)usize', n)
                n = n if F.stable(n) and simple(n) else F.lettmp(n)
                F.emit('%s(%s != 0);' % (F.chk(), n))
                ln = F.lettmp('step_len(%s, %s)' % (it.len, n), 'usize')
                return F.mkit(ln, lambda i: it.at(F.lettmp('step_mul(%s, %s, %s)' % (i, n, it.len), 'usize')))
            if m == 'map': return F.mkit(it.len, lambda i: F.call_clo(vs[1], [it.at(i)]))
            if m == 'copied' or m == 'cloned': return F.mkit(it.len, lambda i: F.deref_copy(it.at(i)))
            if m == 'for_each': return F.consume(it, lambda x: F.call_clo(vs[1], [x]))
            if m == 'last': 
                return self.sopt(F, '%s > 0' % par(it.len), lambda: it.at(F.lettmp('%s - 1' % par(it.len), 'usize')))
            if m == 'nth':
                n = vs[1].s if simple(vs[1].s) else F.lettmp(vs[1].s)
                return self.sopt(F, '%s < %s' % (n, par(it.len)), lambda: it.at(n))
            if m == 'fold':
                x0 = F.deref_copy(vs[1]); acc = 'acc%d' % F.nloop; F.mutn.add(acc)
                F.emit('let mut %s: %s = %s;' % (acc, vt(e['ty']), F.mat(x0)))
                def body(x):
                    v = F.call_clo(vs[2], [F.demat(acc, e['ty']), x])
                    F.emit('%s = %s;' % (acc, F.mat(v))); return UNIT
                F.consume(it, body)
                return F.demat(acc, e['ty'])
            if m == 'collect' and isadt(e['ty'], 'String') and getattr(it, 'text', None): return sc(it.text, 'Str')
            if m == 'collect' and isadt(e['ty'], 'String') and it.k == 'it':
                c = 'col%d' % F.nloop; F.mutn.add(c); F.emit('let mut %s: Str = %s;' % (c, strlit('')))
                F.consume(it, lambda x: (F.emit('%s = str_push(%s, %s);' % (c, c, F.mat(F.deref_copy(x)))), UNIT)[1])
                return sc(c, 'Str')
            if m == 'collect' and isadt(e['ty'], 'Vec') and it.k == 'it' and isadt(e['ty']['args'][0], 'String'):
                c = 'col%d' % F.nloop; F.mutn.add(c); F.emit('let mut %s: %s = Vec::new();' % (c, vt(e['ty'])))
                F.consume(it, lambda x: (F.emit('%s.push(%s);' % (c, F.mat(F.deref_copy(x)))), UNIT)[1])
                return sc(c, vt(e['ty']))
            if m == 'collect' and is_cell(e['ty']):
                c = F.lettmp('h.alloc()', 'usize')
                F.consume(it, lambda x: (F.emit('h.push(%s, %s);' % (c, F.mat(F.deref_copy(x)))), UNIT)[1])
                return cell(c)
        if base == 'core::ops::range::RangeInclusive::<Idx>::new': return V('range', lo=vs[0], hi=vs[1], incl=True)
        if base == 'rand::IterSource::iter_mut':
            n = F.tmp() + '_err'; F.mutn.add(n); F.emit('let mut %s: Option<Err> = None;' % n); return V('rngit', s='rng', n=None, err=n)
        if base == 'rand::Source::gen' and strip(T(0)) == {'param': 'T'}: return sc(F.lettmp('rng.gen()', 'Result<u32, Err>'), 'Result<u32, Err>')
        # --- integers
        mm = re.fullmatch(r'core::num::<impl (\w+)>::(\w+)', base)
        if mm:
            t, op = mm.groups(); xs = [F.deref_copy(v).s for v in vs]
            if op.startswith('overflowing_') or op.startswith('wrapping_') or op.startswith('saturating_') or op in ('leading_zeros', 'trailing_zeros', 'rotate_right', 'rotate_left', 'abs', 'checked_shl', 'count_ones'):
                self.need.add('%s_%s' % (op, t))
                n = F.lettmp('%s_%s(%s)' % (op, t, ', '.join(xs)))
                return F.demat(n, e['ty'])
            if op in ('to_le_bytes', 'to_be_bytes'):
                n = INTS[t] // 8; x = xs[0] if simple(xs[0]) else F.lettmp(xs[0], t)
                return V('bytes', n=n, nat='%s_bytes_%s(%s)' % (op[3:5], t, x), f=lambda i: F.lettmp('%s_byte_%s(%s, %s)' % (op[3:5], t, x, i), 'u8'))
        mm = re.fullmatch(r'(?:core|std)::(f32|f64)::<impl (?:f32|f64)>::(\w+)', base)
        if mm:
            t, op = mm.groups(); xs = [F.deref_copy(v).s for v in vs]; T_ = {'f64': 'F64', 'f32': 'F32'}[t]
            if op == 'to_bits': return sc('%s.b' % (xs[0] if re.fullmatch(r'[\w.]+', xs[0]) else F.lettmp(xs[0], T_)), 'u64' if t == 'f64' else 'u32')
            if op == 'from_bits': return sc(F.lettmp('%s { b: %s }' % (T_, xs[0]), T_), T_)
            if op in ('is_nan', 'is_infinite', 'abs', 'copysign'): return sc(F.lettmp('%s_%s(%s)' % (t, op, ', '.join(xs)), vt(e['ty'])), vt(e['ty']))
            raise Unsupported('float method ' + op)
        if base == 'core::intrinsics::discriminant_value':
            x = F.deref_copy(vs[0])
            if x.k == 'sc' and x.t in ('BISign', 'Ordering'): return sc('disc_%s(%s)' % (x.t, x.s), 'isize')
            raise Unsupported('discriminant')
        if base in ('core::default::Default::default',) and isint(e['ty']): return sc('0' + e['ty'], e['ty'])
        if base.startswith('core::ops::bit::') or base.startswith('core::ops::arith::'):
            x, y = F.deref_copy(vs[0]), F.deref_copy(vs[1]) if len(vs) > 1 else None
            opn = {'shr': 'Shr', 'shl': 'Shl', 'bitand': 'BitAnd', 'bitor': 'BitOr', 'bitxor': 'BitXor', 'add': 'Add', 'sub': 'Sub', 'mul': 'Mul'}.get(m)
            if opn and x.k == 'sc' and y is not None: return F.binop(opn, x, y, x.t)
        # --- x86 intrinsics
        if base.startswith('core::core_arch::'):
            if m in ('_addcarryx_u32', '_subborrow_u32', '_addcarryx_u64', '_addcarry_u32', '_addcarry_u64', '_subborrow_u64'):
                xs = [F.deref_copy(v).s for v in vs[:3]]
                n = F.lettmp('x86%s(%s)' % (m, ', '.join(xs)))
                p = vs[3].p
                while p.k == 'sym' and p.v.k == 'ref': p = p.v.p
                F.assign(p, sc(n + '.1', 'u32')); return sc(n + '.0', 'u8')
            if m in ('_mm256_set1_epi32', '_mm256_setr_epi32', '_mm256_mul_epu32'):
                return sc(F.lettmp('x86%s(%s)' % (m, ', '.join(F.deref_copy(v).s for v in vs)), 'M256'), 'M256')
            if m == '_mm256_maskstore_epi64':
                F.emit('x86_mm256_maskstore_epi64(&mut %s, %s, %s, %s);' % (vs[0].base, vs[0].o, F.deref_copy(vs[1]).s, F.deref_copy(vs[2]).s)); return UNIT
        raise Unsupported('library call ' + (res or base) + (' '+repr(vs) if os.environ.get('FMTDBG') else ''))
    def withsrc(self, s, it): it.text = s; return it
    def isvecval(self, v):
        while v.k == 'ref' and v.p.k in ('val', 'sym'): v = v.p.v
        return v.k in ('cell', 'sl', 'bytes')
    def mkvec(self, F, vs, ty):
        if is_cell(ty):
            c = F.lettmp('h.alloc()', 'usize')
            for v in vs: F.emit('h.push(%s, %s);' % (c, F.mat(v)))
            return cell(c)
        t = vt(ty); n = F.tmp()
        F.emit('let %s%s: %s = Vec::new();' % ('mut ' if vs else '', n, t))
        for v in vs: F.emit('%s.push(%s);' % (n, F.mat(v)))
        return sc(n, t)
    def next(self, F, w):
        while w.k == 'ref' and w.p.k in ('sym', 'val'): w = w.p.v
        if w.k == 'it':
            if getattr(w, 'pos', None):
                pos, src = w.pos, w.src
                c = F.lettmp('%s < %s' % (pos, src.len), 'bool'); i = F.lettmp(pos, 'usize')
                F.emit('if %s { %s = %s + 1; }' % (c, pos, pos))
                return self.sopt(F, c, lambda: src.at(i))
            return self.sopt(F, '%s > 0' % par(w.len), lambda: w.at('0usize'))
        if w.k == 'rngit':
            p = [x for x in self.fns if x.startswith('<rand::iter::Iter<') and x.endswith('Iterator>::next')]
            if len(p) != 1: raise Unsupported('random iterator')
            r = F.call_with(p[0], None, [V('ref', p=P('val', v=w))], None); return sc(F.lettmp(F.mat(r), 'Option<u32>'), 'Option<u32>')
        raise Unsupported('next on ' + w.k)
