# ---- powers
L('ip', '''
/// integer power
pub open spec fn ip(a: int, n: int) -> int decreases n { if n <= 0 { 1 } else { a * ip(a, n - 1) } }
pub proof fn lemma_ip_add(a: int, m: int, n: int) requires m >= 0, n >= 0 ensures ip(a, m + n) == ip(a, m) * ip(a, n) decreases n
{ if n > 0 { lemma_ip_add(a, m, n - 1); lemma_mul_is_associative(a, ip(a, m), ip(a, n - 1)); lemma_mul_is_commutative(a, ip(a, m)); lemma_mul_is_associative(ip(a, m), a, ip(a, n - 1)); } else { lemma_mul_basics(ip(a, m)); } }
pub proof fn lemma_ip1(a: int) ensures ip(a, 1) == a, ip(a, 0) == 1 { lemma_mul_basics(a); assert(ip(a, 0) == 1); }
pub proof fn lemma_ip_nonneg(a: int, n: int) requires a >= 0 ensures ip(a, n) >= 0, a > 0 ==> ip(a, n) >= 1 decreases n
{ if n > 0 { lemma_ip_nonneg(a, n - 1); let b = ip(a, n - 1); assert(a * b >= 0) by(nonlinear_arith) requires a >= 0, b >= 0; if a > 0 { assert(a * b >= 1) by(nonlinear_arith) requires a >= 1, b >= 1; } } }
pub proof fn lemma_ip_zero(n: int) requires n > 0 ensures ip(0, n) == 0 { assert(0 * ip(0, n - 1) == 0); }
pub proof fn lemma_mulmod(a: int, b: int, m: int) requires m > 0 ensures ((a % m) * (b % m)) % m == (a * b) % m, ((a % m) * b) % m == (a * b) % m, (a * (b % m)) % m == (a * b) % m, (a % m) % m == a % m
{ lemma_mul_mod_noop(a, b, m); lemma_mul_mod_noop_left(a, b, m); lemma_mul_mod_noop_right(a, b, m); lemma_mod_twice(a, m); }
pub proof fn lemma_ip_mod(a: int, n: int, m: int) requires m > 0 ensures ip(a % m, n) % m == ip(a, n) % m decreases n
{ if n > 0 { lemma_ip_mod(a, n - 1, m); lemma_mulmod(a, ip(a, n - 1), m); lemma_mulmod(a % m, ip(a % m, n - 1), m); lemma_mulmod(a, ip(a % m, n - 1), m); lemma_mulmod(a, ip(a, n - 1), m); } }
''')
L('lemma_lowbits', '''
/// the low i+1 bits are the low i bits plus bit i
pub proof fn lemma_lowbits(v: int, i: int) requires v >= 0, i >= 0 ensures v % p2(i + 1) == v % p2(i) + (if bit(v, i) { p2(i) } else { 0 }), v / p2(i) == 2 * (v / p2(i + 1)) + (if bit(v, i) { 1int } else { 0 }), v % p2(i) >= 0, v / p2(i) >= 0
{ lemma_p2_pos(i); lemma_p2_1(i); let p = p2(i); lemma_fundamental_div_mod(v, p); lemma_mod_bound(v, p); let q = v / p; lemma_div_pos_is_pos(v, p); let h = q / 2; let b = q % 2;
  assert(v == 2 * p * h + (p * b + v % p)) by(nonlinear_arith) requires v == p * q + v % p, q == 2 * h + b;
  if b == 0 { lemma_mul_basics(p); } else { lemma_mul_basics(p); }
  lemma_fundamental_div_mod_converse(v, 2 * p, h, p * b + v % p); }
''')
F(NAT + 'pow_inner', 'pow_inner', props='C09 C06', req='cn(H, slf), cn(H, b), !na(H, slf), !na(H, b)',
  ens='fr(O, H, slf), cn(H, slf), !na(H, slf), nv(H, slf) == ip(nv(O, slf), nv(O, b))', ghost=['A = nv(H, slf)', 'B = nv(H, b)'],
  loops={0: dict(inv='''fr(h0, H, slf), cn(H, slf), !na(H, slf), cn(H, pre), !na(H, pre), b_1 != slf, b_1 != pre, cn(H, b_1), nv(H, b_1) == B, pre >= h0.len(), H[[b_1]] == hl_b, n0 == blen - 1,
     nv(H, pre) == ip(A, p2(i0 as int)), nv(H, slf) == ip(A, B % p2(i0 + 1))''', gpre=['hl_b = h@[b_1 as int]'],
    pre='lemma_p2_0(); lemma_ip1(A); lemma_lowbits(B, 0); assert(B % 1 == 0); assert(p2(0) == 1); if H[[slf]].len() == 1 { lemma_val1(H[[slf]]); }',
    ls='lemma_lowbits(B, i0 + 1); lemma_p2_1(i0 as int); lemma_ip_add(A, p2(i0 as int), p2(i0 as int)); lemma_p2_pos(i0 as int); lemma_ip_add(A, B % p2(i0 + 1), p2(i0 + 1)); lemma_p2_pos(i0 + 1);',
    post='lemma_small_mod(B as nat, p2(blen as int) as nat);')},
  at={'start': 'if B > 0 { lemma_ip_zero(B); } lemma_ip1(A); lemma_val0(Seq::<u32>::empty());', 'after bits_len:0': '', 'ret': 'if H[[slf]].len() == 1 { lemma_val1(H[[slf]]); }'})

F(NAT + 'pow', 'nat_pow', props='C09 C06 C07 C08', req='cn(H, slf), cn(H, b)', 
  ens='ex(O, H), r >= O.len(), cn(H, r), na(H, r) == (na(O, slf) || na(O, b)), !na(H, r) ==> nv(H, r) == ip(nv(O, slf), nv(O, b))')
F(NAT + 'pow_mod_inner', 'pow_mod_inner', props='C09 C06', req='cn(H, slf), cn(H, b), cn(H, n), !na(H, slf), !na(H, b), !na(H, n)',
  ens='fr(O, H, slf), cn(H, slf), !na(H, slf), nv(H, slf) == pmod(nv(O, slf), nv(O, b), nv(O, n))', ghost=['A = nv(H, slf)', 'B = nv(H, b)', 'M = nv(H, n)'],
  loops={0: dict(inv="""fr(h0, H, slf), cn(H, slf), !na(H, slf), cn(H, sm), !na(H, sm), b_1 != slf, cn(H, b_1), nv(H, b_1) == B, sm >= h0.len(), n_1 != slf, n_1 != sm, b_1 != sm, cn(H, n_1), nv(H, n_1) == M, !na(H, n_1), n0 == blen(B), n0 <= 32 * H[[b_1]].len(), M > 1,
     nv(H, sm) == A % M, nv(H, slf) == ip(A, B / p2(n0 - i0)) % M""",
    pre='lemma_ip1(A); lemma_p2_pos(n0 as int); lemma_basic_div(B, p2(n0 as int)); lemma_small_mod(1, M as nat); if H[[slf]].len() == 1 { lemma_val1(H[[slf]]); }',
    ls='let k = n0 - i0 - 1; lemma_lowbits(B, k); let t = B / p2(k + 1); lemma_ip_add(A, t, t); lemma_mulmod(ip(A, t), ip(A, t), M); lemma_ip_add(A, 2 * t, 1); lemma_ip1(A); lemma_mulmod(ip(A, 2 * t), A, M); lemma_mulmod(A, 1, M);',
    post='lemma_p2_0(); assert(B / 1 == B);')},
  at={'start': 'lemma_ip1(A); lemma_val0(Seq::<u32>::empty());', 'ret': 'if H[[slf]].len() == 1 { lemma_val1(H[[slf]]); } if M == 1 { lemma_mod_self_0(1); assert(ip(A, B) % 1 == 0); }'})
L('pmod', """
/// a^b mod n; a^b for n = 0
pub open spec fn pmod(a: int, b: int, n: int) -> int { if n == 0 { ip(a, b) } else { ip(a, b) % n } }
""")
F(NAT + 'pow_mod', 'nat_pow_mod', props='C09 C06 C07 C08', req='cn(H, slf), cn(H, b), cn(H, n)', 
  ens='ex(O, H), r >= O.len(), cn(H, r), na(H, r) == (na(O, slf) || na(O, b) || na(O, n)), !na(H, r) ==> nv(H, r) == pmod(nv(O, slf), nv(O, b), nv(O, n))')
