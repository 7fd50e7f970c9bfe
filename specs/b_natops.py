# operator and op-assign forms of Nat; every post speaks of the operands' values before the call, for shared and unshared operands alike
def natop(tr, m, rhs, post, props, tag, req='', mod='arith', zreq=None):
    """post: text over X (the result cell in H), A (value of the left operand before), B (value of the right operand)"""
    nat = rhs == ''
    path = '<bigint::nat::Nat as core::ops::%s::%s%s>::%s'
    r0 = 'cn(H, slf)' + (', cn(H, rhs)' if nat else '')
    nan = '(na(O, slf) || na(O, rhs))' if nat else 'na(O, slf)'
    rq = r0 + ((', !%s ==> (%s)' % (nan.replace('O,', 'H,'), req.replace('A', 'nv(H, slf)').replace('B', 'nv(H, rhs)' if nat else 'rhs'))) if req else '')
    def P(x): return re.sub(r'\bA\b', 'nv(O, slf)', re.sub(r'\bB\b', 'nv(O, rhs)' if nat else 'rhs', re.sub(r'\bX\b', x, post)))
    zr = {}
    if req == 'B != 0': zr = dict(zreq=r0 + ', !%s, %s == 0' % (nan.replace('O,', 'H,'), 'nv(H, rhs)' if nat else 'rhs'), zprops='C03')
    def zn(n): return dict(zr, zname=n + '_z') if zr else {}
    F(path % (mod, tr, '<%s>' % rhs if rhs else '', m), 'nat_%s%s' % (m, '_' + rhs if rhs else ''), props=props + ' C06 C07 C08',
      req=rq, ens='ex(O, H), r >= O.len(), cn(H, r), na(H, r) == %s, !%s ==> %s' % (nan, nan, P('r')), **zn('nat_%s%s' % (m, '_' + rhs if rhs else '')))
    F(path % (mod, tr + 'Assign', '<%s>' % rhs if rhs else '', m + '_assign'), 'nat_%s_assign%s' % (m, '_' + rhs if rhs else ''), props=props + ' C06 C07 C08',
      req=rq, ens='fr(O, H, slf), cn(H, slf), na(H, slf) == %s, !%s ==> %s' % (nan, nan, P('slf')), **zn('nat_%s_assign%s' % (m, '_' + rhs if rhs else '')))
import re
natop('Add', 'add', '', 'nv(H, X) == A + B', 'C01', 'add')
natop('Add', 'add', 'u32', 'nv(H, X) == A + B', 'C01', 'add')
natop('Sub', 'sub', '', 'nv(H, X) == (if A >= B { A - B } else { B - A })', 'C01', 'sub')
natop('Sub', 'sub', 'u32', 'nv(H, X) == (if A >= B { A - B } else { B - A })', 'C01', 'sub')
F(NAT + 'sub_with_sign', 'sub_with_sign', props='C01 C07 C08 C06', req='cn(H, slf), cn(H, rhs)',
  ens='''ex(O, H), r.0 >= O.len(), cn(H, r.0), na(H, r.0) == (na(O, slf) || na(O, rhs)), na(H, r.0) ==> !r.1,
    !na(H, r.0) ==> r.1 == (nv(O, slf) >= nv(O, rhs)) && nv(H, r.0) == (if r.1 { nv(O, slf) - nv(O, rhs) } else { nv(O, rhs) - nv(O, slf) })''')
F(NAT + 'sub_assign_with_sign', 'sub_assign_with_sign', props='C01 C07 C08 C06', req='cn(H, slf), cn(H, rhs)',
  ens='''fr(O, H, slf), cn(H, slf), na(H, slf) == (na(O, slf) || na(O, rhs)), na(H, slf) ==> !r,
    !na(H, slf) ==> r == (nv(O, slf) >= nv(O, rhs)) && nv(H, slf) == (if r { nv(O, slf) - nv(O, rhs) } else { nv(O, rhs) - nv(O, slf) })''')
