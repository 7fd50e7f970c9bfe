# ---- multiplication: schoolbook, Karatsuba, squaring
L('cg', '''
pub open spec fn cg(a: int, b: int, m: int, c: int) -> bool { a + c * m == b }
''')
L('cgr', '''
/// a and b differ by a multiple of m
pub open spec fn cgr(a: int, b: int, m: int) -> bool { exists|c: int| #[trigger] cg(a, b, m, c) }
''')
L('lemma_cgr', '''
pub proof fn lemma_cgr(a: int, b: int, m: int, c: int) requires a + c * m == b ensures cgr(a, b, m) { assert(cg(a, b, m, c)); }
''')
L('lemma_cgr_eq', '''
pub proof fn lemma_cgr_eq(a: int, b: int, m: int) requires cgr(a, b, m), 0 <= a < m, 0 <= b < m ensures a == b
{ let c = choose|c: int| #[trigger] cg(a, b, m, c); assert(c == 0) by(nonlinear_arith) requires a + c * m == b, 0 <= a < m, 0 <= b < m; }
''')
L('lemma_basic_row', '''
/// one row of the schoolbook product
pub proof fn lemma_basic_row(s: Seq<u32>, t: Seq<u32>, lo: int, n: int, i: int, x: int, y: int, d: int, r: int)
  requires n >= 0, i >= 0, rv(s, lo, n + i) == x * y, rv(t, lo, i) == rv(s, lo, i), rv(t, lo + i, n) + r * pw(n) == x * d + rv(s, lo + i, n), t[lo + i + n] == r
  ensures rv(t, lo, n + i + 1) == x * (y + d * pw(i))
{
  lemma_rv_split(s, lo, i, n); lemma_rv_split(t, lo, i, n); lemma_step(t, lo, n + i); lemma_pw_add(i, n);
  let p = pw(i); let q = pw(n); let u = rv(t, lo + i, n); let v = rv(s, lo + i, n); let w = rv(s, lo, i);
  assert(w + p * u + r * (p * q) == x * (y + d * p)) by(nonlinear_arith) requires w + p * v == x * y, u + r * q == x * d + v;
}
''')
F(NAT + 'basic_mul', 'basic_mul', props='C02 C25',
  req='inb(H, z, xlen + ylen), inb(H, x, xlen as int), inb(H, y, ylen as int), dj(z, xlen + ylen, x, xlen as int), dj(z, xlen + ylen, y, ylen as int)',
  ens='frr(O, H, z.c, z.o as int, xlen + ylen), pv(H, z, xlen + ylen) == pv(O, x, xlen as int) * pv(O, y, ylen as int)',
  loops={0: dict(inv='frr(h0, H, z.c, z.o as int, i0 as int), forall|k: int| z.o <= k < z.o + i0 ==> H[[z.c]][k] == 0', post='lemma_rv_zero(H[[z.c]], z.o as int, xlen as int); assert(rv(h0[[y.c]], y.o as int, 0) == 0);'),
         1: dict(inv='''frr(h0, H, z.c, z.o as int, xlen + ylen), forall|k: int| z.o + xlen + i1 <= k < z.o + xlen + ylen ==> H[[z.c]][k] == 0,
              pv(H, z, xlen + i1) == pv(h0, x, xlen as int) * pv(h0, y, i1 as int)''',
           le='''let n = i1 as int; let s = hl1[[z.c]]; let t = H[[z.c]]; lemma_step(h0[[y.c]], y.o as int, n); lemma_frr(h0, hl1, z.c, z.o as int, xlen + ylen, x.c, x.o as int, xlen as int);
              let X = pv(h0, x, xlen as int); assert(d == h0[[y.c]][y.o + n]);
              if d != 0 {
                lemma_frr(hl1, H, z.c, z.o + n, xlen + 1, z.c, z.o as int, n);
                lemma_basic_row(s, t, z.o as int, xlen as int, n, X, pv(h0, y, n), d as int, t[z.o + n + xlen] as int);
              } else { lemma_step(s, z.o as int, xlen + n); assert(s[z.o + xlen + n] == 0); lemma_mul_basics(pw(xlen + n)); lemma_mul_basics(pw(n)); }''')},
  at={'after add_mul_vvw_inner:0': 'lemma_frr(h0, hl1, z.c, z.o as int, xlen + ylen, x.c, x.o as int, xlen as int);'})
F(NAT + 'add_at', 'add_at', props='C02 C25',
  req='inb(H, z, zlen as int), inb(H, x, xlen as int), i + xlen <= zlen, dj(z, zlen as int, x, xlen as int)',
  ens='frr(O, H, z.c, z.o as int, zlen as int), cgr(pv(H, z, zlen as int), pv(O, z, zlen as int) + pw(i as int) * pv(O, x, xlen as int), pw(zlen as int))',
  ghost=['mut c2: int = 0', 'mut c1: int = 0'],
  at={'after add_vv_inner:0': 'c1 = add_vv_inner_0 as int; lemma_frr(O, H, z.c, z.o + i, xlen as int, z.c, z.o + i + xlen, zlen - i - xlen);', 'after add_vw_inner:0': 'c2 = add_vw_inner_0 as int; c1 = 0; let j = i + xlen; lemma_frr(hb_add_vw_inner_0, H, z.c, z.o + j, zlen - j, z.c, z.o + i, xlen as int);',
     'ret': '''let m = xlen as int; let n = zlen as int; let a = i as int; let j = a + m; let s = O[[z.c]]; let t = H[[z.c]]; let lo = z.o as int; let X = pv(O, x, m);
        if xlen == 0 { assert(pw(a) * 0 == 0); lemma_cgr(pv(H, z, n), pv(O, z, n) + pw(a) * X, pw(n), 0); } else {
        lemma_rv_eq(s, lo, t, lo, a); lemma_addat(s, t, lo, a, m, n, X, c1, c2); }'''})
L('lemma_addat', '''
/// adding X at word a: c1 = carry out of the words a..a+m that was not propagated, c2 = carry out of the top
pub proof fn lemma_addat(s: Seq<u32>, t: Seq<u32>, lo: int, a: int, m: int, n: int, x: int, c1: int, c2: int)
  requires 0 <= a, 0 < m, a + m <= n, c1 == 0 || c2 == 0, rv(t, lo, a) == rv(s, lo, a),
    ({ let j = a + m; let d = rv(s, lo + a, m) + x - rv(t, lo + a, m); let e = rv(t, lo + j, n - j) - rv(s, lo + j, n - j);
      (d == c1 * pw(m) && c2 == 0 && e == 0 && (c1 == 0 || j == n)) || (d == pw(m) && c1 == 0 && e + c2 * pw(n - j) == 1) })
  ensures cgr(rv(t, lo, n), rv(s, lo, n) + pw(a) * x, pw(n))
{
  let j = a + m; lemma_rv_split(s, lo, a, n - a); lemma_rv_split(t, lo, a, n - a); lemma_rv_split(s, lo + a, m, n - j); lemma_rv_split(t, lo + a, m, n - j);
  lemma_pw_add(a, n - a); lemma_pw_add(m, n - j); let p = pw(a); let q = pw(m); let w = pw(n - j);
  let s0 = rv(s, lo, a); let s1 = rv(s, lo + a, m); let s2 = rv(s, lo + j, n - j); let t1 = rv(t, lo + a, m); let t2 = rv(t, lo + j, n - j);
  let c = if c1 == 0 { c2 } else { c1 }; let N = p * (q * w);
  assert(pw(0) == 1);
  if c1 != 0 { assert(w == 1); assert(s0 + p * (t1 + q * t2) + c * (p * (q * w)) == s0 + p * (s1 + q * s2) + p * x) by(nonlinear_arith) requires s1 + x - t1 == c * q, w == 1, t2 == s2; }
  else if s1 + x - t1 == 0 && c2 == 0 && t2 == s2 { assert(s0 + p * (t1 + q * t2) == s0 + p * (s1 + q * s2) + p * x) by(nonlinear_arith) requires s1 + x - t1 == 0, t2 == s2; assert(0 * N == 0); }
  else { if s1 + x - t1 == c1 * q { assert(c1 * q == 0) by(nonlinear_arith) requires c1 == 0; } else { }
    assert(s0 + p * (t1 + q * t2) + c * (p * (q * w)) == s0 + p * (s1 + q * s2) + p * x) by(nonlinear_arith) requires s1 + x - t1 == q, t2 - s2 + c * w == 1; }
  lemma_cgr(rv(t, lo, n), rv(s, lo, n) + p * x, pw(n), c);
}
''')
for nm, sg in (('add', '+'), ('sub', '-')):
    F(NAT + 'karatsuba_' + nm, 'karatsuba_' + nm, props='C02 C25',
      req='inb(H, z, n + n / 2), inb(H, x, n as int), dj(z, n + n / 2, x, n as int)',
      ens='frr(O, H, z.c, z.o as int, n + n / 2), cgr(pv(H, z, n + n / 2), pv(O, z, n + n / 2) %s pv(O, x, n as int), pw(n + n / 2))' % sg,
      ghost=['mut c2: int = 0', 'mut c1: int = 0'],
      at={'after %s_vv_inner:0' % nm: 'c1 = %s_vv_inner_0 as int; lemma_shr1(n); lemma_frr(O, H, z.c, z.o as int, n as int, z.c, z.o + n, (n / 2) as int);' % nm,
          'after %s_vw_inner:0' % nm: 'c2 = %s_vw_inner_0 as int; lemma_frr(hb_%s_vw_inner_0, H, z.c, z.o + n, (n / 2) as int, z.c, z.o as int, n as int);' % (nm, nm),
          'ret': '''lemma_shr1(n); let m = n as int; let k = n / 2; let s = O[[z.c]]; let t = H[[z.c]]; let lo = z.o as int; let X = pv(O, x, m); lemma_rv_split(s, lo, m, k as int); lemma_rv_split(t, lo, m, k as int); lemma_pw_add(m, k as int);
             let p = pw(m); let w = pw(k as int); let s0 = rv(s, lo, m); let s1 = rv(s, lo + m, k as int); let t0 = rv(t, lo, m); let t1 = rv(t, lo + m, k as int);
             if c1 == 0 { assert(s1 == t1) by { lemma_rv_eq(s, lo + m, t, lo + m, k as int); } assert(0 * p == 0); assert(0 * (p * w) == 0); lemma_cgr(pv(H, z, m + k), pv(O, z, m + k) SG X, pw(m + k), 0); }
             else { assert(t0 SG p == s0 SG X); assert(t1 SG c2 * w == s1 SG 1);
               assert(t0 + p * t1 SG c2 * (p * w) == s0 + p * s1 SG X) by(nonlinear_arith) requires t0 SG p == s0 SG X, t1 SG c2 * w == s1 SG 1;
               let cc = 0 SG c2; assert(cc * (p * w) == 0 SG c2 * (p * w)) by(nonlinear_arith) requires cc == 0 SG c2;
               lemma_cgr(pv(H, z, m + k), pv(O, z, m + k) SG X, pw(m + k), cc); }'''.replace('SG', sg)})
L('lemma_shr1', '''
pub proof fn lemma_shr1(n: usize) ensures n >> 1 == n / 2 { assert(n >> 1 == n / 2) by(bit_vector); }
''')
L('lemma_kara', '''
/// Karatsuba's identity over the words of z: p = |x1-x0||y0-y1|, sg its sign, v1, v2, v3 the partial sums of the upper three quarters
pub proof fn lemma_kara(x0: int, x1: int, y0: int, y1: int, b: int, B4: int, v0: int, v1: int, v2: int, v3: int, w0: int, l: int, p: int, sg: int)
  requires B4 == b * (b * (b * b)), w0 == x0 * y0 + (x1 * y1) * (b * b), w0 == l + b * v0, p == sg * ((x1 - x0) * (y0 - y1)), 
    cgr(v1, v0 + x0 * y0, b * (b * b)), cgr(v2, v1 + x1 * y1, b * (b * b)), cgr(v3, v2 + sg * p, b * (b * b)), sg == 1 || sg == -1
  ensures cgr(l + b * v3, (x0 + b * x1) * (y0 + b * y1), B4)
{
  let q = b * (b * b); let c1 = choose|c: int| #[trigger] cg(v1, v0 + x0 * y0, q, c); let c2 = choose|c: int| #[trigger] cg(v2, v1 + x1 * y1, q, c); let c3 = choose|c: int| #[trigger] cg(v3, v2 + sg * p, q, c);
  let d = y0 - y1; let m = (x1 - x0) * d; lemma_dist2(x1, x0, d); lemma_mul_is_distributive_sub(x1, y0, y1); lemma_mul_is_distributive_sub(x0, y0, y1);
  assert(sg * p == m) by { if sg == 1 { lemma_mul_basics(m); lemma_mul_basics(p); } else { assert(p == -m) by { assert(-1 * m == -m); } assert(-1 * p == -p); } }
  let e = c1 + c2 + c3; let k = x1 * y0 + x0 * y1; lemma_dist3(c1, c2, c3, q);
  assert(v3 + e * q == v0 + k);
  assert(e * (b * q) == b * (e * q)) by { lemma_mul_is_associative(e, b, q); lemma_mul_is_commutative(e, b); lemma_mul_is_associative(b, e, q); }
  lemma_mul_is_distributive_add(b, v3, e * q); lemma_mul_is_distributive_add(b, v0, k);
  let Y = y0 + b * y1; lemma_dist2(x0, b * x1, Y); lemma_mul_is_distributive_add(x0, y0, b * y1); lemma_mul_is_distributive_add(b * x1, y0, b * y1);
  assert(x0 * (b * y1) == b * (x0 * y1)) by(nonlinear_arith); assert((b * x1) * y0 == b * (x1 * y0)) by(nonlinear_arith); 
  assert((b * x1) * (b * y1) == (x1 * y1) * (b * b)) by(nonlinear_arith);
  lemma_mul_is_distributive_add(b, x1 * y0, x0 * y1);
  lemma_cgr(l + b * v3, (x0 + b * x1) * (y0 + b * y1), B4, e);
}
''')
L('lemma_absub', '''
/// |a - b| by a borrowing subtraction that is redone the other way round after a borrow
pub proof fn lemma_absub(a: int, b: int, d: int, c: int, p: int) requires 0 <= a < p, 0 <= b < p, 0 <= d < p, d - c * p == a - b, 0 <= c <= 1 ensures (c == 0) == (a >= b), c == 0 ==> d == a - b
{ assert(c * p == if c == 0 { 0 } else { p }) by(nonlinear_arith) requires 0 <= c <= 1; }
''')
L('lemma_odd', '''
pub proof fn lemma_odd(n: usize) ensures n & 1 == n % 2, n >> 1 == n / 2, n <= 0x1_0000_0000 ==> n << 1 == 2 * n && n << 2 == 4 * n
{ assert(n & 1 == n % 2) by(bit_vector); assert(n >> 1 == n / 2) by(bit_vector); assert(n <= 0x1_0000_0000 ==> n << 1 == 2 * n && n << 2 == 4 * n) by(bit_vector); }
''')

F(NAT + 'karatsuba', 'karatsuba', props='C02 C25', dec='ylen',
  req='xlen == ylen, inb(H, z, zlen as int), zlen >= 6 * ylen, inb(H, x, xlen as int), inb(H, y, ylen as int), dj(z, 6 * ylen, x, xlen as int), dj(z, 6 * ylen, y, ylen as int)',
  ens='frr(O, H, z.c, z.o as int, 6 * ylen), pv(H, z, 2 * ylen) == pv(O, x, xlen as int) * pv(O, y, ylen as int)',
  ghost=['mut gx0: int = 0', 'mut gx1: int = 0', 'mut gy0: int = 0', 'mut gy1: int = 0', 'mut xneg: bool = false', 'mut yneg: bool = false', 'mut h1: Hp = h@', 'mut h2: Hp = h@', 'mut h3: Hp = h@', 'mut h4: Hp = h@', 'mut h5: Hp = h@', 'mut h6: Hp = h@', 'mut h7: Hp = h@', 'mut h8: Hp = h@', 'mut q: int = 0'],
  at={'start': 'lemma_odd(ylen); lemma_odd(xlen);',
    'before karatsuba:0': '''q = n2_v as int; assert(n == 2 * n2_v); gx0 = pv(H, x0, q); gx1 = pv(H, x1, q); gy0 = pv(H, y0, q); gy1 = pv(H, y1, q); lemma_rv_split(H[[x.c]], x.o as int, q, q); lemma_rv_split(H[[y.c]], y.o as int, q, q);
        lemma_rv_bound(H[[x.c]], x.o as int, q); lemma_rv_bound(H[[x.c]], x.o + q, q); lemma_rv_bound(H[[y.c]], y.o as int, q); lemma_rv_bound(H[[y.c]], y.o + q, q);''',
    'after karatsuba:0': '''h1 = H; lemma_frr(O, H, z.c, z.o as int, 3 * n, x.c, x.o + q, q); lemma_frr(O, H, z.c, z.o as int, 3 * n, y.c, y.o + q, q);
        lemma_frr(O, H, z.c, z.o as int, 3 * n, x.c, x.o as int, q); lemma_frr(O, H, z.c, z.o as int, 3 * n, y.c, y.o as int, q);''',
    'after karatsuba:1': '''h2 = H; let w = z.o + n; lemma_frr(h1, H, z.c, w, 3 * n, x.c, x.o + q, q); lemma_frr(h1, H, z.c, w, 3 * n, y.c, y.o + q, q);
        lemma_frr(h1, H, z.c, w, 3 * n, x.c, x.o as int, q); lemma_frr(h1, H, z.c, w, 3 * n, y.c, y.o as int, q); lemma_frr(h1, H, z.c, w, 3 * n, z.c, z.o as int, n as int);''',
    'after sub_vv_inner:0': '''h3 = H; let w = z.o + 2 * n; xneg = sub_vv_inner_0 != 0; lemma_rv_bound(H[[z.c]], w, q); lemma_absub(gx1, gx0, pv(H, xd, q), sub_vv_inner_0 as int, pw(q));
        lemma_frr(h2, H, z.c, w, q, x.c, x.o + q, q); lemma_frr(h2, H, z.c, w, q, y.c, y.o + q, q); lemma_frr(h2, H, z.c, w, q, x.c, x.o as int, q); lemma_frr(h2, H, z.c, w, q, y.c, y.o as int, q);
        lemma_frr(h2, H, z.c, w, q, z.c, z.o as int, n as int); lemma_frr(h2, H, z.c, w, q, z.c, z.o + n, n as int);''',
    'after sub_vv_inner:1': '''let w = z.o + 2 * n; lemma_rv_bound(H[[z.c]], w, q); lemma_absub(gx0, gx1, pv(H, xd, q), sub_vv_inner_1 as int, pw(q));
        lemma_frr(h3, H, z.c, w, q, x.c, x.o + q, q); lemma_frr(h3, H, z.c, w, q, y.c, y.o + q, q); lemma_frr(h3, H, z.c, w, q, x.c, x.o as int, q); lemma_frr(h3, H, z.c, w, q, y.c, y.o as int, q);
        lemma_frr(h3, H, z.c, w, q, z.c, z.o as int, n as int); lemma_frr(h3, H, z.c, w, q, z.c, z.o + n, n as int); h3 = H;''',
    'after sub_vv_inner:2': '''h4 = H; let w = z.o + 2 * n + q; yneg = sub_vv_inner_2 != 0; lemma_rv_bound(H[[z.c]], w, q); lemma_absub(gy0, gy1, pv(H, yd, q), sub_vv_inner_2 as int, pw(q));
        lemma_frr(h3, H, z.c, w, q, x.c, x.o + q, q); lemma_frr(h3, H, z.c, w, q, y.c, y.o + q, q); lemma_frr(h3, H, z.c, w, q, x.c, x.o as int, q); lemma_frr(h3, H, z.c, w, q, y.c, y.o as int, q);
        lemma_frr(h3, H, z.c, w, q, z.c, z.o as int, n as int); lemma_frr(h3, H, z.c, w, q, z.c, z.o + n, n as int); lemma_frr(h3, H, z.c, w, q, z.c, z.o + 2 * n, q);''',
    'after sub_vv_inner:3': '''let w = z.o + 2 * n + q; lemma_rv_bound(H[[z.c]], w, q); lemma_absub(gy1, gy0, pv(H, yd, q), sub_vv_inner_3 as int, pw(q));
        lemma_frr(h4, H, z.c, w, q, z.c, z.o as int, n as int); lemma_frr(h4, H, z.c, w, q, z.c, z.o + n, n as int); lemma_frr(h4, H, z.c, w, q, z.c, z.o + 2 * n, q); h4 = H;''',
    'before karatsuba:2': '''assert(pv(H, xd, q) == (if xneg { gx0 - gx1 } else { gx1 - gx0 })); assert(pv(H, yd, q) == (if yneg { gy1 - gy0 } else { gy0 - gy1 }));
        assert(rv(H[[z.c]], z.o as int, n as int) == gx0 * gy0); assert(rv(H[[z.c]], z.o + n, n as int) == gx1 * gy1); assert((s > 0) == (xneg == yneg));''',
    'after karatsuba:2': '''h5 = H; let w = z.o + 3 * n; lemma_frr(h4, H, z.c, w, 3 * n, z.c, z.o as int, n as int); lemma_frr(h4, H, z.c, w, 3 * n, z.c, z.o + n, n as int);
        let a = gx1 - gx0; let b = gy0 - gy1; let m = a * b; assert(-a * b == -m && a * -b == -m && (-a) * (-b) == m) by(nonlinear_arith) requires m == a * b; assert(pv(H, p, n as int) == (if xneg == yneg { m } else { -m }));''',
    'before karatsuba_add:0': '''h6 = H; lemma_rv_eq(h6[[z.c]], z.o + 4 * n, h5[[z.c]], z.o as int, n as int); assert forall|k: int| 0 <= k < n implies #[trigger] h6[[z.c]][z.o + 5 * n + k] == h5[[z.c]][z.o + n + k] by { assert(h6[[z.c]][z.o + 4 * n + (n + k)] == h5[[z.c]][z.o + (n + k)]); } lemma_rv_eq(h6[[z.c]], z.o + 5 * n, h5[[z.c]], z.o + n, n as int);
        lemma_frr(h5, h6, z.c, z.o + 4 * n, 2 * n, z.c, z.o as int, n as int); lemma_frr(h5, h6, z.c, z.o + 4 * n, 2 * n, z.c, z.o + n, n as int); lemma_frr(h5, h6, z.c, z.o + 4 * n, 2 * n, z.c, z.o + 3 * n, n as int);''',
    'after karatsuba_add:0': '''h7 = H; lemma_frr(h6, H, z.c, z.o + q, n + n / 2, z.c, z.o + 5 * n, n as int); lemma_frr(h6, H, z.c, z.o + q, n + n / 2, z.c, z.o + 3 * n, n as int); lemma_frr(h6, H, z.c, z.o + q, n + n / 2, z.c, z.o as int, q);''',
    'after karatsuba_add:1': '''h8 = H; lemma_frr(h7, H, z.c, z.o + q, n + n / 2, z.c, z.o + 3 * n, n as int); lemma_frr(h7, H, z.c, z.o + q, n + n / 2, z.c, z.o as int, q);''',
    'ret:1': '''lemma_frr(h8, H, z.c, z.o + q, n + n / 2, z.c, z.o as int, q);
        let b = pw(q); lemma_pw_add(q, q); lemma_pw_add(q, 2 * q); lemma_pw_add(q, 3 * q); let B4 = pw(4 * q);
        let s6 = h6[[z.c]]; let s9 = H[[z.c]]; let lo = z.o as int; lemma_rv_split(s6, lo, n as int, n as int); lemma_rv_split(s6, lo, q, 3 * q); lemma_rv_split(s9, lo, q, 3 * q);
        let sg = if xneg == yneg { 1int } else { -1int }; let P = rv(h6[[z.c]], lo + 3 * n, n as int); let m = (gx1 - gx0) * (gy0 - gy1); assert(P == sg * m && sg * P == (if xneg == yneg { P } else { -P })) by(nonlinear_arith) requires P == (if xneg == yneg { m } else { -m }), sg == if xneg == yneg { 1int } else { -1int };
        let z2 = gx1 * gy1; assert(pw(n as int) == b * b); assert(z2 * (b * b) == (b * b) * z2) by(nonlinear_arith);
        lemma_kara(gx0, gx1, gy0, gy1, b, B4, rv(s6, lo + q, 3 * q), rv(h7[[z.c]], lo + q, 3 * q), rv(h8[[z.c]], lo + q, 3 * q), rv(s9, lo + q, 3 * q), rv(s6, lo, 2 * n), rv(s6, lo, q), P, sg);
        let X = pv(O, x, n as int); let Y = pv(O, y, n as int); lemma_rv_bound(O[[x.c]], x.o as int, n as int); lemma_rv_bound(O[[y.c]], y.o as int, n as int); lemma_rv_bound(s9, lo, 4 * q); lemma_pw_add(2 * q, 2 * q);
        assert(0 <= X * Y < pw(2 * q) * pw(2 * q)) by(nonlinear_arith) requires 0 <= X < pw(2 * q), 0 <= Y < pw(2 * q);
        lemma_cgr_eq(rv(s9, lo, 4 * q), X * Y, B4);'''},
  loops={0: dict(inv='''frr(h5, H, z.c, z.o + 4 * n, i0 as int), forall|k: int| 0 <= k < i0 ==> #[trigger] H[[z.c]][z.o + 4 * n + k] == h5[[z.c]][z.o + k]''')})
F(NAT + 'karatsuba_len', 'karatsuba_len', props='C02 C25', noheap=True,
  req='threshold >= 1', ens='r <= n_p, n_p >= 1 ==> r >= 1',
  loops={0: dict(inv='i >= 0, i <= 63, n * p2(i as int) <= n_p, n_p >= 1 ==> n >= 1, n_p == 0 ==> i == 0, threshold >= 1', dec='n', pre='lemma_p2_0(); lemma_mul_basics(n as int);', ghost=['n_0 = n'],
     le='lemma_shr1(n_0); lemma_p2_1(i - 1); let a = p2(i - 1); lemma_p2_pos(i - 1); assert(n * (2 * a) <= n_0 * a) by(nonlinear_arith) requires n == n_0 / 2, a >= 1; assert(p2(i as int) <= n_p) by(nonlinear_arith) requires n * p2(i as int) <= n_p, n >= 1, p2(i as int) >= 1; lemma_p2_0(); if i >= 64 { lemma_p2_mono(64, i as int); }',
     post='if n_p == 0 { assert(n == 0) by { lemma_p2_pos(i as int); assert(n == 0) by(nonlinear_arith) requires n * p2(i as int) <= 0, p2(i as int) >= 1; } } lemma_usize_shl(n, i as usize); lemma_p2_pos(i as int); assert(n_p >= 1 ==> n * p2(i as int) >= 1) by(nonlinear_arith) requires n_p >= 1 ==> n >= 1, p2(i as int) >= 1;')})
L('lemma_usize_shl', '''
pub proof fn lemma_usize_shl(x: usize, s: usize) requires s < 64, x * p2(s as int) <= 0xffff_ffff_ffff_ffff ensures x << s == x * p2(s as int)
{ let a = x as u64; let b = s as u64; assert(x << s == a << b) by(bit_vector) requires a == x as u64, b == s as u64; lemma_u64_shl_is_mul(a, b); }
''')
F(NAT + 'mul_add_ww', 'mul_add_ww', props='C02 C25',
  req='ok(H, z), ok(H, x.c), x.c != z, x.lo <= x.hi <= H[[x.c]].len(), x.hi <= 0x1_0000_0000',
  ens='fr(O, H, z), H.len() == O.len(), nv(H, z) == rv(O[[x.c]], x.lo as int, x.hi - x.lo) * y + r_v, canon(H[[z]]), !na(H, z), H[[z]].len() <= x.hi - x.lo + 1',
  loops={0: dict(inv='fr(h0, H, z), H.len() == h0.len(), H[[z]].len() == m + 1, n0 == m, rv(H[[z]], 0, i0 as int) + acc0 * pw(i0 as int) == rv(h0[[x.c]], x.lo as int, i0 as int) * y + r_v', ghost=['c0 = acc0'], pre='assert(r_v * 1 == r_v);',
     le='let n = i0 as int; lemma_mulc(rv(hl0[[z]], 0, n), c0 as int, rv(h0[[x.c]], x.lo as int, n), r_v as int, y as int, H[[z]][n] as int, acc0 as int, h0[[x.c]][x.lo + n] as int, 0, n); lemma_mul_basics(pw(n)); lemma_step(H[[z]], 0, n); lemma_step(h0[[x.c]], x.lo as int, n);',
     post='lemma_mul_basics(r_v as int);')},
  at={'before trim_head_zero_:0': 'lemma_step(H[[z]], 0, m as int);', 'ret:0': 'lemma_val1(H[[z]]); assert(rv(h0[[x.c]], x.lo as int, m as int) * y == 0) by { if m == 0 { lemma_mul_basics(y as int); } else { lemma_mul_basics(rv(h0[[x.c]], x.lo as int, m as int)); } }'})

L('lemma_mrow', '''
pub proof fn lemma_mrow(xa: int, xi: int, y0: int, y1: int, p: int, b: int) ensures xa * (y0 + b * y1) + p * (xi * y0) + (p * b) * (xi * y1) == (xa + p * xi) * (y0 + b * y1)
{ let Y = y0 + b * y1; lemma_dist2(xa, p * xi, Y); lemma_mul_is_distributive_add(p * xi, y0, b * y1); assert((p * xi) * y0 == p * (xi * y0)) by(nonlinear_arith); assert((p * xi) * (b * y1) == (p * b) * (xi * y1)) by(nonlinear_arith); }
''')
L('lemma_prodlt', '''
pub proof fn lemma_prodlt(x: int, y: int, m: int, n: int) requires m >= 0, n >= 0, 0 <= x < pw(m), 0 <= y < pw(n) ensures 0 <= x * y < pw(m + n)
{ lemma_pw_add(m, n); let p = pw(m); let q = pw(n); assert(0 <= x * y < p * q) by(nonlinear_arith) requires 0 <= x < p, 0 <= y < q; }
''')
def zeros(l, sl, c):
    return dict(inv='zero_count == i%d, forall|j: int| %s.hi - i%d <= j < %s.hi ==> h0[[%s.c]][j] == 0' % (l, sl, l, sl, c))
F(NAT + 'mul_by_karatsuba', 'mul_by_karatsuba', props='C02 C25 C06', dec='x.hi - x.lo + y.hi - y.lo, if x.hi - x.lo < y.hi - y.lo { 1int } else { 0 }',
  req='ok(H, z), ok(H, x.c), ok(H, y.c), x.c != z, y.c != z, x.lo <= x.hi <= H[[x.c]].len(), y.lo <= y.hi <= H[[y.c]].len(), x.hi <= 0x1_0000_0000, y.hi <= 0x1_0000_0000',
  ens='fr(O, H, z), nv(H, z) == rv(O[[x.c]], x.lo as int, x.hi - x.lo) * rv(O[[y.c]], y.lo as int, y.hi - y.lo), canon(H[[z]]), na(H, z) == (x.lo == x.hi || y.lo == y.hi), H[[z]].len() <= x.hi - x.lo + y.hi - y.lo',
  ghost=['X = rv(h0[[x.c]], x.lo as int, x.hi - x.lo)', 'Y = rv(h0[[y.c]], y.lo as int, y.hi - y.lo)', 'mut K: int = 0', 'mut xp: int = 0', 'mut y0v: int = 0', 'mut y1v: int = 0', 'mut sa: Seq<u32> = Seq::empty()', 'xs = h0[[x.c]]', 'ys = h0[[y.c]]', 'mut xiv: int = 0', 'mut L: int = 0'],
  loops={0: dict(inv='fr(h0, H, z), H[[z]].len() == m + n, forall|j: int| 0 <= j < 2 * k ==> H[[z]][j] == sa[j], forall|j: int| 2 * k <= j < 2 * k + i0 ==> H[[z]][j] == 0',
                 post='lemma_rv_eq(H[[z]], 0, sa, 0, 2 * K); lemma_rv_top0(H[[z]], 0, 2 * K, m + n);'),
         1: zeros(1, 'x0', 'x'), 2: zeros(2, 'y0', 'y'), 4: zeros(4, 'xi_1', 'x'),
         3: dict(inv='''fr(h0, H, z), H.len() > t, t >= h0.len(), H[[z]].len() == m + n, xp == k + i3 * k, rv(H[[z]], 0, m + n) == rv(xs, x.lo as int, if xp < m { xp } else { m as int }) * Y''',
            pre='xp = K; lemma_mul_basics(k as int);', ls='lemma_mul_is_distributive_add_other_way(k as int, i3 as int, 1); lemma_mul_basics(k as int); let r = t30 - 1; assert(i3 * k <= r * k) by(nonlinear_arith) requires i3 <= r, k >= 0; ',
            le='''lemma_mul_is_distributive_add_other_way(k as int, i3 as int, 1); xp = xp + k;''',
            post='assert(xp >= m);')},
  at={'start': 'lemma_rv_bound(xs, x.lo as int, x.hi - x.lo); lemma_rv_bound(ys, y.lo as int, y.hi - y.lo);',
    'ret:0': 'lemma_mul_is_commutative(X, Y);', 'ret:1': 'lemma_mul_basics(X); lemma_mul_basics(Y);',
    'before mul_add_ww:0': 'lemma_step(ys, y.lo as int, 0); lemma_mul_basics(ys[y.lo as int] as int);',
    'after karatsuba_len:0': 'K = karatsuba_len_0 as int; lemma_odd(karatsuba_len_0); lemma_rv_split(ys, y.lo as int, K, n - K); lemma_rv_bound(xs, x.lo as int, K);  lemma_rv_bound(ys, y.lo as int, K); lemma_rv_bound(ys, y.lo + K, n - K); y0v = rv(ys, y.lo as int, K); y1v = rv(ys, y.lo + K, n - K); lemma_mul_basics(pw(K));',
    'after karatsuba:0': 'sa = H[[z]];',
    'before mul_by_karatsuba:1': 'lemma_rv_top0(xs, x.lo as int, K - zero_count, K);',
    'after add_at:0': '''let xa = rv(xs, x.lo as int, K); lemma_mrow(0, xa, y0v, y1v, 1, pw(K)); lemma_mul_basics(xa); lemma_mul_basics(xa * y0v); lemma_mul_basics(pw(K)); lemma_mul_basics(Y); lemma_pw_mono(K, m as int); lemma_prodlt(xa, Y, m as int, n as int); lemma_rv_bound(H[[z]], 0, m + n); lemma_cgr_eq(rv(H[[z]], 0, m + n), xa * Y, pw(m + n));''',
    'before mul_by_karatsuba:2': '''L = xi_1.hi - xi_1.lo; lemma_rv_top0(xs, x.lo + xp, L - zero_count, L); lemma_rv_top0(ys, y.lo as int, y0_1.hi - y0_1.lo, K); xiv = rv(xs, x.lo + xp, L); lemma_rv_bound(xs, x.lo + xp, L);
        lemma_rv_split(xs, x.lo as int, xp, L); lemma_rv_bound(xs, x.lo as int, xp); lemma_rv_bound(xs, x.lo as int, xp + L); lemma_pw_mono(xp + L, m as int); lemma_mrow(rv(xs, x.lo as int, xp), xiv, y0v, y1v, pw(xp), pw(K)); lemma_pw_add(xp, K); lemma_prodlt(rv(xs, x.lo as int, xp + L), Y, m as int, n as int); lemma_pw_pos(xp); lemma_pw_pos(K); assert((pw(xp) * pw(K)) * (xiv * y1v) >= 0) by(nonlinear_arith) requires pw(xp) >= 1, pw(K) >= 1, xiv >= 0, y1v >= 0; assert(rv(xs, x.lo as int, xp) * Y >= 0 && pw(xp) * (xiv * y0v) >= 0) by(nonlinear_arith) requires pw(xp) >= 1, xiv >= 0, y0v >= 0, Y >= 0, rv(xs, x.lo as int, xp) >= 0;''',
    'after add_at:1': 'lemma_rv_bound(H[[z]], 0, m + n); lemma_cgr_eq(rv(H[[z]], 0, m + n), rv(xs, x.lo as int, xp) * Y + pw(xp) * (xiv * y0v), pw(m + n));',
    'after add_at:2': 'lemma_rv_bound(H[[z]], 0, m + n); lemma_cgr_eq(rv(H[[z]], 0, m + n), rv(xs, x.lo as int, xp + L) * Y, pw(m + n));'})
F(NAT + 'mul_karatsuba', 'mul_karatsuba', props='C02 C25 C06', req='cn(H, slf), cn(H, b)', 
  ens='ex(O, H), r >= O.len(), cn(H, r), nv(H, r) == nv(O, slf) * nv(O, b), na(H, r) == (na(O, slf) || na(O, b))')

L('shlw', '''
pub open spec fn shlw(a: Seq<u32>, lo: int, s: int, j: int) -> int { (a[lo + j] * p2(s)) % 0x1_0000_0000 + (if j > 0 { a[lo + j - 1] as int / p2(32 - s) } else { 0 }) }
''')
L('lemma_shlword', '''
pub proof fn lemma_shlword(x: u32, y: u32, s: u32) requires 0 < s < 32 ensures (x << s) | (y >> ((32 - s) as u32)) == (x * p2(s as int)) % 0x1_0000_0000 + y as int / p2(32 - s), x << s == (x * p2(s as int)) % 0x1_0000_0000, y >> ((32 - s) as u32) == y as int / p2(32 - s)
{ let k = (32 - s) as u32; lemma_shl32(x, s); lemma_shr32(y, k); assert((x << s) | (y >> k) == add(x << s, y >> k) && (x << s) <= 0xffff_ffff - (y >> k)) by(bit_vector) requires 0 < s < 32, k == 32 - s; }
''')
L('lemma_shlsum', '''
pub proof fn lemma_shlsum(t: Seq<u32>, tlo: int, a: Seq<u32>, lo: int, s: int, n: int) requires 0 < s < 32, n >= 0, forall|j: int| 0 <= j < n ==> #[trigger] t[tlo + j] == shlw(a, lo, s, j)
  ensures rv(t, tlo, n) + (if n > 0 { a[lo + n - 1] as int / p2(32 - s) } else { 0 }) * pw(n) == rv(a, lo, n) * p2(s) decreases n
{ if n > 0 { lemma_shlsum(t, tlo, a, lo, s, n - 1); let x = a[lo + n - 1] as int; let P = p2(s); let Q = p2(32 - s); lemma_p2_add(s, 32 - s); lemma_p2_0(); lemma_p2_pos(s); lemma_p2_pos(32 - s);
    let y = x * P; let h = x / Q; assert(t[tlo + (n - 1)] == shlw(a, lo, s, n - 1)); lemma_fundamental_div_mod(y, P * Q); lemma_div_denominator(y, P, Q); lemma_div_multiples_vanish(x, P); lemma_mul_is_commutative(x, P);
    assert(y == 0x1_0000_0000 * h + y % 0x1_0000_0000);
    let c = if n > 1 { a[lo + n - 2] as int / Q } else { 0 }; let w = pw(n - 1); let l = y % 0x1_0000_0000;
    assert((l + c) * w + h * (0x1_0000_0000 * w) == c * w + y * w) by(nonlinear_arith) requires y == 0x1_0000_0000 * h + l;
    lemma_dist2(rv(a, lo, n - 1), x * w, P); assert((x * w) * P == y * w) by(nonlinear_arith) requires y == x * P; } else { lemma_mul_basics(p2(s)); lemma_mul_basics(pw(n)); } }
''')
F(AG + 'shl_vu_inner', 'shl_vu_inner', props='C02 C25',
  req='inb(H, z, n as int), inb(H, x, n as int), (x.c == z.c && x.o == z.o) || dj(z, n as int, x, n as int), s < 32',
  ens='frr(O, H, z.c, z.o as int, n as int), pv(H, z, n as int) + r * pw(n as int) == pv(O, x, n as int) * p2(s as int)',
  loops={0: dict(inv='frr(h0, H, z.c, z.o + n - i0, i0 as int), forall|j: int| n - i0 <= j < n ==> #[trigger] H[[z.c]][z.o + j] == shlw(h0[[x.c]], x.o as int, s as int, j)',
     ls='let xs = h0[[x.c]]; let i = n - 1 - i0; lemma_shlword(xs[x.o + i], xs[x.o + i - 1], s as u32); assert(((32 - s) as usize) & 31 == 32 - s) by(bit_vector) requires 0 < s < 32;')},
  at={'start': 'assert(s & 31 == s) by(bit_vector) requires s < 32; lemma_p2_0(); if s > 0 { assert(((32 - s) as usize) & 31 == 32 - s) by(bit_vector) requires 0 < s < 32; }',
      'ret:0': 'lemma_rv_eq(H[[z.c]], z.o as int, O[[x.c]], x.o as int, n as int); lemma_mul_basics(pv(O, x, n as int)); lemma_mul_basics(pw(n as int)); if n == 0 { lemma_mul_basics(p2(s as int)); }',
      'ret:1': 'let xs = h0[[x.c]]; lemma_shlword(xs[x.o as int], xs[x.o + n - 1], s as u32); assert forall|j: int| 0 <= j < n implies #[trigger] H[[z.c]][z.o + j] == shlw(xs, x.o as int, s as int, j) by { } lemma_shlsum(H[[z.c]], z.o as int, xs, x.o as int, s as int, n as int);'})
L('lemma_sqrow', '''
pub proof fn lemma_sqrow(t: int, z: int, x: int, d: int, p: int, t2: int, z2: int)
  requires 2 * t + z == x * x, t2 == t + p * (x * d), z2 == z + (d * d) * (p * p) ensures 2 * t2 + z2 == (x + d * p) * (x + d * p)
{ lemma_dist2(x, d * p, x + d * p); lemma_mul_is_distributive_add(x, x, d * p); lemma_mul_is_distributive_add(d * p, x, d * p); assert((d * p) * x == p * (x * d) && x * (d * p) == p * (x * d)) by(nonlinear_arith); assert((d * p) * (d * p) == (d * d) * (p * p)) by(nonlinear_arith); }
''')
F(NAT + 'basic_sqr', 'basic_sqr', props='C02 C25',
  req='xlen >= 1, zlen >= 2 * xlen, inb(H, z, zlen as int), inb(H, x, xlen as int), dj(z, 2 * xlen, x, xlen as int)',
  ens='frr(O, H, z.c, z.o as int, 2 * xlen), pv(H, z, 2 * xlen) == pv(O, x, xlen as int) * pv(O, x, xlen as int)',
  ghost=['xs = h0[[x.c]]', 'mut ts: Seq<u32> = Seq::empty()', 'mut hb: Hp = h@', 'n = xlen as int', 'mut hc: Hp = h@'],
  loops={0: dict(inv='''frr(h0, H, z.c, z.o as int, 2 * xlen), H.len() > t, t >= h0.len(), H[[t]].len() == 2 * xlen, H[[t]][0] == 0, forall|j: int| 2 * i0 + 1 <= j < 2 * xlen ==> H[[t]][j] == 0,
            2 * rv(H[[t]], 0, 2 * i0 + 2) + pv(H, z, 2 * i0 + 2) == rv(xs, x.o as int, i0 + 1) * rv(xs, x.o as int, i0 + 1)''',
        pre='lemma_step(H[[t]], 0, 1); lemma_step(H[[t]], 0, 0); lemma_step(H[[z.c]], z.o as int, 1); lemma_step(H[[z.c]], z.o as int, 0); lemma_step(xs, x.o as int, 0); lemma_mul_basics(xs[x.o as int] as int); assert(pw(0) == 1 && pw(1) == 0x1_0000_0000); assert(rv(xs, x.o as int, 1) == xs[x.o as int]); assert(pv(H, z, 2) == H[[z.c]][z.o as int] + H[[z.c]][z.o + 1] * 0x1_0000_0000); lemma_mul_basics(H[[z.c]][z.o as int] as int);',
        ls='lemma_odd((1 + i0) as usize);',
        le='''let k = i as int; let a = hl0[[t]]; let b = H[[t]]; lemma_step(xs, x.o as int, k); let X = rv(xs, x.o as int, k); let p = pw(k); lemma_pw_add(k, k);
          lemma_step(b, 0, 2 * k); lemma_step(b, 0, 2 * k + 1); assert(b[2 * k + 1] == 0); lemma_mul_basics(pw(2 * k + 1));
          lemma_rv_split(a, 0, k, k); lemma_rv_split(b, 0, k, k); lemma_rv_eq(a, 0, b, 0, k);
          lemma_rv_eq(hc[[t]], k, b, k, k); let c = b[2 * k] as int; assert(pv(hc, Ptr { c: t, o: i }, k) + c * pw(k) == X * d + rv(a, k, k)); lemma_mul_is_distributive_add(p, rv(b, k, k), c * p); lemma_mul_is_distributive_add(p, X * d, rv(a, k, k)); assert(p * (c * p) == c * (p * p)) by(nonlinear_arith);
          let zs = H[[z.c]]; let lo = z.o as int; lemma_step(zs, lo, 2 * k); lemma_step(zs, lo, 2 * k + 1); lemma_rv_eq(hl0[[z.c]], lo, zs, lo, 2 * k); let q = pw(2 * k); let u = zs[lo + 2 * k] as int; let v = zs[lo + 2 * k + 1] as int;
          assert(u * q + v * (0x1_0000_0000 * q) == (d * d) * q) by(nonlinear_arith) requires v * 0x1_0000_0000 + u == d * d;
          lemma_sqrow(rv(a, 0, 2 * k), pv(hl0, z, 2 * k), X, d as int, p, rv(b, 0, 2 * k + 2), pv(H, z, 2 * k + 2));''')},
  at={'start': 'lemma_odd(xlen);', 'after mul_ww:0': 'assert(2 * xlen == H[[t]].len());', 
     'before add_mul_vvw_inner:0': 'lemma_frr(h0, H, z.c, z.o as int, 2 * xlen, x.c, x.o as int, i as int);', 'after add_mul_vvw_inner:0': 'hc = H;',
     'before shl_vu_inner:0': 'hb = H; ts = H[[t]]; lemma_p2_0(); lemma_rv_split(ts, 0, 1, 2 * n - 1); lemma_step(ts, 1, 2 * n - 2); lemma_step(ts, 0, 0); lemma_mul_basics(pw(0)); lemma_mul_basics(pw(2 * n - 2)); assert(ts[2 * n - 1] == 0);',
     'before add_vv_inner:0': '''let u = H[[t]]; lemma_rv_split(u, 0, 1, 2 * n - 1); lemma_step(u, 1, 2 * n - 2); lemma_step(u, 0, 0); lemma_mul_basics(pw(0)); lemma_rv_eq(hc[[t]], 1, u, 1, 2 * n - 2); assert(rv(u, 1, 2 * n - 1) == rv(ts, 1, 2 * n - 1) * 2); assert(rv(u, 0, 1) == 0 && rv(ts, 0, 1) == 0); 
        lemma_mul_is_associative(pw(1), rv(ts, 1, 2 * n - 1), 2); assert(rv(u, 0, 2 * n) == 2 * rv(ts, 0, 2 * n));''',
     'after shl_vu_inner:0': 'hc = H; assert(frr(hb, H, t, 1, 2 * n - 2));',
     'ret': 'lemma_rv_bound(xs, x.o as int, n); lemma_prodlt(pv(O, x, n), pv(O, x, n), n, n); lemma_rv_bound(H[[z.c]], z.o as int, 2 * n); let c = add_vv_inner_0 as int; let a = pv(H, z, 2 * n); lemma_pw_pos(2 * n); assert(c == 0) by(nonlinear_arith) requires a + c * pw(2 * n) < pw(2 * n), a >= 0, c >= 0, pw(2 * n) >= 1; lemma_mul_basics(pw(2 * n));'})

F(NAT + 'karatsuba_sqr', 'karatsuba_sqr', props='C02 C25', dec='xlen',
  req='inb(H, z, zlen as int), zlen >= 6 * xlen, inb(H, x, xlen as int), dj(z, 6 * xlen, x, xlen as int), xlen >= 1',
  ens='frr(O, H, z.c, z.o as int, 6 * xlen), pv(H, z, 2 * xlen) == pv(O, x, xlen as int) * pv(O, x, xlen as int)',
  ghost=['mut gx0: int = 0', 'mut gx1: int = 0', 'mut xneg: bool = false', 'mut h1: Hp = h@', 'mut h2: Hp = h@', 'mut h3: Hp = h@', 'mut h5: Hp = h@', 'mut h6: Hp = h@', 'mut h7: Hp = h@', 'mut h8: Hp = h@', 'mut q: int = 0'],
  at={'start': 'lemma_odd(xlen);',
    'before karatsuba_sqr:0': '''q = n2_v as int; assert(n == 2 * n2_v); gx0 = pv(H, x0, q); gx1 = pv(H, x1, q); lemma_rv_split(H[[x.c]], x.o as int, q, q);
        lemma_rv_bound(H[[x.c]], x.o as int, q); lemma_rv_bound(H[[x.c]], x.o + q, q);''',
    'after karatsuba_sqr:0': '''h1 = H; lemma_frr(O, H, z.c, z.o as int, 3 * n, x.c, x.o + q, q); lemma_frr(O, H, z.c, z.o as int, 3 * n, x.c, x.o as int, q);''',
    'after karatsuba_sqr:1': '''h2 = H; let w = z.o + n; lemma_frr(h1, H, z.c, w, 3 * n, x.c, x.o + q, q); lemma_frr(h1, H, z.c, w, 3 * n, x.c, x.o as int, q); lemma_frr(h1, H, z.c, w, 3 * n, z.c, z.o as int, n as int);''',
    'after sub_vv_inner:0': '''h3 = H; let w = z.o + 2 * n; xneg = sub_vv_inner_0 != 0; lemma_rv_bound(H[[z.c]], w, q); lemma_absub(gx1, gx0, pv(H, xd, q), sub_vv_inner_0 as int, pw(q));
        lemma_frr(h2, H, z.c, w, q, x.c, x.o + q, q); lemma_frr(h2, H, z.c, w, q, x.c, x.o as int, q); lemma_frr(h2, H, z.c, w, q, z.c, z.o as int, n as int); lemma_frr(h2, H, z.c, w, q, z.c, z.o + n, n as int);''',
    'after sub_vv_inner:1': '''let w = z.o + 2 * n; lemma_rv_bound(H[[z.c]], w, q); lemma_absub(gx0, gx1, pv(H, xd, q), sub_vv_inner_1 as int, pw(q));
        lemma_frr(h3, H, z.c, w, q, z.c, z.o as int, n as int); lemma_frr(h3, H, z.c, w, q, z.c, z.o + n, n as int); h3 = H;''',
    'before karatsuba_sqr:2': '''assert(pv(H, xd, q) == (if xneg { gx0 - gx1 } else { gx1 - gx0 })); assert(rv(H[[z.c]], z.o as int, n as int) == gx0 * gx0); assert(rv(H[[z.c]], z.o + n, n as int) == gx1 * gx1);''',
    'after karatsuba_sqr:2': '''h5 = H; let w = z.o + 3 * n; lemma_frr(h3, H, z.c, w, 3 * n, z.c, z.o as int, n as int); lemma_frr(h3, H, z.c, w, 3 * n, z.c, z.o + n, n as int);
        let a = gx1 - gx0; let m = a * a; assert((-a) * (-a) == m) by(nonlinear_arith) requires m == a * a; assert(pv(H, p, n as int) == m);''',
    'before karatsuba_add:0': '''h6 = H; lemma_rv_eq(h6[[z.c]], z.o + 4 * n, h5[[z.c]], z.o as int, n as int); assert forall|k: int| 0 <= k < n implies #[trigger] h6[[z.c]][z.o + 5 * n + k] == h5[[z.c]][z.o + n + k] by { assert(h6[[z.c]][z.o + 4 * n + (n + k)] == h5[[z.c]][z.o + (n + k)]); } lemma_rv_eq(h6[[z.c]], z.o + 5 * n, h5[[z.c]], z.o + n, n as int);
        lemma_frr(h5, h6, z.c, z.o + 4 * n, 2 * n, z.c, z.o as int, n as int); lemma_frr(h5, h6, z.c, z.o + 4 * n, 2 * n, z.c, z.o + n, n as int); lemma_frr(h5, h6, z.c, z.o + 4 * n, 2 * n, z.c, z.o + 3 * n, n as int);''',
    'after karatsuba_add:0': '''h7 = H; lemma_frr(h6, H, z.c, z.o + q, n + n / 2, z.c, z.o + 5 * n, n as int); lemma_frr(h6, H, z.c, z.o + q, n + n / 2, z.c, z.o + 3 * n, n as int); lemma_frr(h6, H, z.c, z.o + q, n + n / 2, z.c, z.o as int, q);''',
    'after karatsuba_add:1': '''h8 = H; lemma_frr(h7, H, z.c, z.o + q, n + n / 2, z.c, z.o + 3 * n, n as int); lemma_frr(h7, H, z.c, z.o + q, n + n / 2, z.c, z.o as int, q);''',
    'ret:1': '''lemma_frr(h8, H, z.c, z.o + q, n + n / 2, z.c, z.o as int, q);
        let b = pw(q); lemma_pw_add(q, q); lemma_pw_add(q, 2 * q); lemma_pw_add(q, 3 * q); let B4 = pw(4 * q);
        let s6 = h6[[z.c]]; let s9 = H[[z.c]]; let lo = z.o as int; lemma_rv_split(s6, lo, n as int, n as int); lemma_rv_split(s6, lo, q, 3 * q); lemma_rv_split(s9, lo, q, 3 * q);
        let P = rv(h6[[z.c]], lo + 3 * n, n as int); let d = gx1 - gx0; let m = d * (gx0 - gx1); assert(m == -(d * d)) by(nonlinear_arith) requires m == d * (gx0 - gx1), d == gx1 - gx0; assert(-1 * m == -m); assert(-1 * P == -P);
        let z2 = gx1 * gx1; assert(pw(n as int) == b * b); assert(z2 * (b * b) == (b * b) * z2) by(nonlinear_arith);
        lemma_kara(gx0, gx1, gx0, gx1, b, B4, rv(s6, lo + q, 3 * q), rv(h7[[z.c]], lo + q, 3 * q), rv(h8[[z.c]], lo + q, 3 * q), rv(s9, lo + q, 3 * q), rv(s6, lo, 2 * n), rv(s6, lo, q), P, -1);
        let X = pv(O, x, n as int); lemma_rv_bound(O[[x.c]], x.o as int, n as int); lemma_rv_bound(s9, lo, 4 * q); lemma_prodlt(X, X, 2 * q, 2 * q);
        lemma_cgr_eq(rv(s9, lo, 4 * q), X * X, B4);'''},
  loops={0: dict(inv='''frr(h5, H, z.c, z.o + 4 * n, i0 as int), forall|k: int| 0 <= k < i0 ==> #[trigger] H[[z.c]][z.o + 4 * n + k] == h5[[z.c]][z.o + k]''')})

L('lemma_sq2', '''
pub proof fn lemma_sq2(a: int, c: int, b: int) requires a >= 0, c >= 0, b >= 1 ensures (a + b * c) * (a + b * c) == a * a + b * (a * c) + b * (a * c) + (b * b) * (c * c), a * a >= 0, b * (a * c) >= 0, (b * b) * (c * c) >= 0
{ let d = b * c; lemma_dist2(a, d, a + d); lemma_mul_is_distributive_add(a, a, d); lemma_mul_is_distributive_add(d, a, d); assert(a * d == b * (a * c) && d * a == b * (a * c)) by(nonlinear_arith) requires d == b * c; assert(d * d == (b * b) * (c * c)) by(nonlinear_arith) requires d == b * c;
  assert(a * a >= 0 && a * c >= 0 && c * c >= 0 && b * b >= 0) by(nonlinear_arith) requires a >= 0, c >= 0, b >= 1; let u = a * c; let v = c * c; let w = b * b; assert(b * u >= 0 && w * v >= 0) by(nonlinear_arith) requires u >= 0, v >= 0, w >= 0, b >= 1; }
''')
F(NAT + 'sqr_v', 'sqr_v', props='C02 C25 C06', dec='x.hi - x.lo',
  req='ok(H, z), ok(H, x.c), x.c != z, x.lo <= x.hi <= H[[x.c]].len(), x.hi <= 0x1_0000_0000',
  ens='fr(O, H, z), nv(H, z) == rv(O[[x.c]], x.lo as int, x.hi - x.lo) * rv(O[[x.c]], x.lo as int, x.hi - x.lo), canon(H[[z]]), na(H, z) == (x.lo == x.hi), H[[z]].len() <= 2 * (x.hi - x.lo)',
  ghost=['X = rv(h0[[x.c]], x.lo as int, x.hi - x.lo)', 'mut K: int = 0', 'mut a: int = 0', 'mut c: int = 0', 'mut sa: Seq<u32> = Seq::empty()', 'xs = h0[[x.c]]', 'm = x.hi - x.lo'],
  loops={0: dict(inv='fr(h0, H, z), H[[z]].len() == 2 * m, forall|j: int| 0 <= j < 2 * k ==> H[[z]][j] == sa[j], forall|j: int| 2 * k <= j < 2 * k + i0 ==> H[[z]][j] == 0',
                 post='lemma_rv_eq(H[[z]], 0, sa, 0, 2 * K); lemma_rv_top0(H[[z]], 0, 2 * K, 2 * m);'),
         1: zeros(1, 'x0', 'x')},
  at={'start': 'lemma_odd((x.hi - x.lo) as usize); lemma_rv_bound(xs, x.lo as int, m); lemma_mul_basics(X);',
    'after mul_ww:0': 'lemma_step(xs, x.lo as int, 0); lemma_mul_basics(d as int); assert(X == d);',
    'before trim_head_zero_:0': 'lemma_step(H[[z]], 0, 1); lemma_step(H[[z]], 0, 0); lemma_mul_basics(H[[z]][0] as int); assert(pw(1) == 0x1_0000_0000 && pw(0) == 1);',
    'after karatsuba_len:0': 'K = karatsuba_len_0 as int; lemma_odd(karatsuba_len_0); lemma_rv_split(xs, x.lo as int, K, m - K); lemma_rv_bound(xs, x.lo as int, K); lemma_rv_bound(xs, x.lo + K, m - K); a = rv(xs, x.lo as int, K); c = rv(xs, x.lo + K, m - K); lemma_pw_pos(K); lemma_sq2(a, c, pw(K)); lemma_pw_add(K, K); lemma_prodlt(X, X, m, m);',
    'after karatsuba_sqr:0': 'sa = H[[z]];', 'fi:5': '',
    'before trim_head_zero_:3': 'if K == m { lemma_mul_basics(pw(m)); lemma_mul_basics(a); }',
    'before mul_by_karatsuba:0': 'lemma_rv_top0(xs, x.lo as int, K - zero_count, K);',
    'after add_at:0': 'lemma_rv_bound(H[[z]], 0, 2 * m); lemma_cgr_eq(rv(H[[z]], 0, 2 * m), a * a + pw(K) * (a * c), pw(2 * m));',
    'after add_at:1': 'lemma_rv_bound(H[[z]], 0, 2 * m); lemma_cgr_eq(rv(H[[z]], 0, 2 * m), a * a + pw(K) * (a * c) + pw(K) * (a * c), pw(2 * m));',
    'after add_at:2': 'lemma_rv_bound(H[[z]], 0, 2 * m); lemma_cgr_eq(rv(H[[z]], 0, 2 * m), X * X, pw(2 * m));'})
F(NAT + 'sqr', 'nat_sqr', props='C02 C25 C06', req='cn(H, slf)', 
  ens='ex(O, H), r >= O.len(), cn(H, r), nv(H, r) == nv(O, slf) * nv(O, slf), na(H, r) == na(O, slf)')
