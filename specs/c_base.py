# comparisons with primitive integers, BigInt construction, sign, order
for t in ('u8', 'u16', 'u32', 'u64', 'u128', 'usize'):
    F(N + 'core::cmp::PartialEq<%s>>::eq' % t, 'nat_eq_' + t, props='C06 C07', req='cn(H, slf)', ens='ex(O, H), r == (!na(O, slf) && nv(O, slf) == other)',
      at={'ret': 'let o = nat_from_%s_0; if !na(O, slf) && nv(O, slf) == other { lemma_canon_eq(H[[slf]], H[[o]]); }' % t} if 0 else
         {'after nat_from_%s:0' % t: 'if nv(O, slf) == other { lemma_canon_eq(H[[slf]], H[[nat_from_%s_0]]); }' % t})
    F(N + 'core::cmp::PartialOrd<%s>>::partial_cmp' % t, 'nat_cmp_' + t, props='C06 C07', req='cn(H, slf)', ens='ex(O, H), r == (if na(O, slf) { None } else { Some(ordv(nv(O, slf), other as int)) })')
    F(Z + 'core::convert::From<%s>>::from' % t, 'bi_from_' + t, props='C11 C06', ens='ex(O, H), r.nat >= O.len(), cb(H, r), !nb(H, r), bv(H, r) == x')
for t in ('i8', 'i16', 'i32', 'i64', 'i128', 'isize'):
    F(Z + 'core::convert::From<%s>>::from' % t, 'bi_from_' + t, props='C11 C06', ens='ex(O, H), r.nat >= O.len(), cb(H, r), !nb(H, r), bv(H, r) == x')
F(BI + 'nan', 'bi_nan', props='C07', ens='ex(O, H), r.nat >= O.len(), cb(H, r), nb(H, r)')
F(BI + 'deep_clone', 'bi_deep_clone', props='C08', req='cb(H, slf)', ens='ex(O, H), r.nat >= O.len(), cb(H, r), nb(H, r) == nb(O, slf), bv(H, r) == bv(O, slf), H[[r.nat]] == O[[slf.nat]], r.sign == slf.sign')
F(BI + 'is_negative', 'bi_is_negative', props='C06', pure=True, req='cb(H, slf)', ens='r == (bv(H, slf) < 0 && !nb(H, slf))', at={'ret': 'lemma_nv_nonneg(H, slf.nat);'})
F(BI + 'is_natural', 'bi_is_natural', props='C06', pure=True, req='cb(H, slf)', ens='r == (bv(H, slf) >= 0 && !nb(H, slf))', at={'ret': 'lemma_nv_nonneg(H, slf.nat);'})
F(BI + 'is_positive', 'bi_is_positive', props='C06', req='cb(H, slf)', ens='ex(O, H), r == (bv(O, slf) > 0 && !nb(O, slf))', at={'ret': 'lemma_nv_nonneg(O, slf.nat);'})
F(BI + 'signnum', 'bi_signnum', props='C06 C07', req='cb(H, slf)', ens='ex(O, H), r == (if nb(O, slf) { None } else if bv(O, slf) < 0 { Some(-1isize) } else if bv(O, slf) == 0 { Some(0isize) } else { Some(1isize) })', at={'ret': 'lemma_nv_nonneg(O, slf.nat);'})
F(BI + 'abs', 'bi_abs', props='C06 C07 C08', req='cb(H, slf)', ens='ex(O, H), r.nat >= O.len(), cb(H, r), nb(H, r) == nb(O, slf), bv(H, r) == nv(O, slf.nat), r.sign == BISign::Natural')
F(BI + 'neg_inner', 'bi_neg_inner', props='C06 C07', req='cb(H, *old(slf))', ens='ex(O, H), final(slf).nat == old(slf).nat, cb(H, *final(slf)), nb(H, *final(slf)) == nb(O, *old(slf)), !nb(O, *old(slf)) ==> bv(H, *final(slf)) == -bv(O, *old(slf))')
F(Z + 'core::ops::arith::Neg>::neg', 'bi_neg', props='C06 C07 C08', req='cb(H, slf)', ens='ex(O, H), r.nat >= O.len(), cb(H, r), nb(H, r) == nb(O, slf), !nb(O, slf) ==> bv(H, r) == -bv(O, slf)')
F(BI + 'set_natural', 'bi_set_natural', props='C06', pure=True, req='cb(H, *old(slf))', ens='final(slf).nat == old(slf).nat, cb(H, *final(slf)), bv(H, *final(slf)) == nv(H, old(slf).nat)')
F(BI + 'set_negative', 'bi_set_negative', props='C06', req='cb(H, *old(slf))', ens='ex(O, H), final(slf).nat == old(slf).nat, cb(H, *final(slf)), !nb(O, *old(slf)) ==> bv(H, *final(slf)) == -nv(O, old(slf).nat)')
F(Z + 'core::cmp::PartialEq>::eq', 'bi_eq', props='C06 C07', pure=True, req='cb(H, slf), cb(H, other)', ens='r == (!nb(H, slf) && !nb(H, other) && bv(H, slf) == bv(H, other))', at={'ret': 'lemma_nv_nonneg(H, slf.nat); lemma_nv_nonneg(H, other.nat);'})
F(Z + 'core::cmp::PartialEq<u32>>::eq', 'bi_eq_u32', props='C06 C07', req='cb(H, slf)', ens='ex(O, H), r == (!nb(O, slf) && bv(O, slf) == other)', at={'ret': 'lemma_nv_nonneg(O, slf.nat);'})
F(Z + 'core::cmp::PartialOrd>::partial_cmp', 'bi_partial_cmp', props='C06 C07', pure=True, req='cb(H, slf), cb(H, other)', ens='r == (if nb(H, slf) || nb(H, other) { None } else { Some(ordv(bv(H, slf), bv(H, other))) })', at={'ret': 'lemma_nv_nonneg(H, slf.nat); lemma_nv_nonneg(H, other.nat);'})
F(Z + 'core::convert::From<bigint::nat::Nat>>::from', 'bi_from_nat', props='C11 C08', req='cn(H, nat_v)', ens='ex(O, H), r.nat >= O.len(), cb(H, r), nb(H, r) == na(O, nat_v), bv(H, r) == nv(O, nat_v), r.sign == BISign::Natural')
def biop(tr, m, inner, post, props, rhs='BigInt', req='', mod='arith', extra=None, rawreq=''):
    """inner + operator + op-assign of BigInt; post over X (result), A, B"""
    bi = rhs == 'BigInt'
    T = lambda t, x, a, h: re.sub(r'\bA\b', 'bv(%s, %s)' % (h, a), re.sub(r'\bB\b', 'bv(%s, rhs)' % h if bi else 'rhs', re.sub(r'\bX\b', x, t)))
    nan = lambda a, h: '(nb(%s, %s)%s)' % (h, a, ' || nb(%s, rhs)' % h if bi else '')
    def rq(a): return 'cb(H, %s)' % a + (', cb(H, rhs)' if bi else '') + (', !%s ==> (%s)' % (nan(a, 'H'), T(req, '', a, 'H')) if req else '') + ((', ' + T(rawreq, '', a, 'H')) if rawreq else '')
    def zk(a, n): return dict(zname=n + '_z', zprops='C03', zreq='cb(H, %s), cb(H, rhs), !nb(H, rhs), bv(H, rhs) == 0' % a) if rawreq else {}
    asg = 'fr(O, H, old(slf).nat), own(O, final(slf).nat, old(slf).nat), cb(H, *final(slf)), nb(H, *final(slf)) == {n}, !{n} ==> {p}'.format(n=nan('*old(slf)', 'O'), p=T(post, '*final(slf)', '*old(slf)', 'O'))
    F(BI + inner, 'bi_' + inner, props=props + ' C06 C07 C08', req=rq('*old(slf)'), ens=asg, **(extra or {}), **zk('*old(slf)', 'bi_' + inner))
    g = '' if bi else '<%s>' % rhs
    F('<bigint::bigint::BigInt as core::ops::%s::%s%s>::%s' % (mod, tr, g, m), 'bi_' + m, props=props + ' C06 C07 C08', req=rq('slf'),
      ens='ex(O, H), r.nat >= O.len(), cb(H, r), nb(H, r) == {n}, !{n} ==> {p}'.format(n=nan('slf', 'O'), p=T(post, 'r', 'slf', 'O')), **zk('slf', 'bi_' + m))
    F('<bigint::bigint::BigInt as core::ops::%s::%sAssign%s>::%s_assign' % (mod, tr, g, m), 'bi_' + m + '_assign', props=props + ' C06 C07 C08', req=rq('*old(slf)'), ens=asg, **zk('*old(slf)', 'bi_' + m + '_assign'))
NN = 'lemma_nv_nonneg(O, old(slf).nat); lemma_nv_nonneg(O, rhs.nat); lemma_nv_nonneg(H, slf.nat);'
biop('Add', 'add', 'add_inner', 'bv(H, X) == A + B', 'C01', extra=dict(at={'ret': NN}))
biop('Sub', 'sub', 'sub_inner', 'bv(H, X) == A - B', 'C01', extra=dict(at={'ret': NN}))
