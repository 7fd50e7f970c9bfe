# ---- word-vector kernels (raw pointers into buffers)
L('frr', '''
/// only the n words of cell c from lo on may have changed
pub open spec fn frr(a: Hp, b: Hp, c: usize, lo: int, n: int) -> bool { b.len() >= a.len() && b[c as int].len() == a[c as int].len() && (forall|k: int| 0 <= k < a.len() && k != c ==> #[trigger] b[k] == a[k]) && (forall|i: int| 0 <= i < a[c as int].len() && (i < lo || i >= lo + n) ==> #[trigger] b[c as int][i] == a[c as int][i]) }
''')
L('inb', '''
pub open spec fn inb(h: Hp, p: Ptr, n: int) -> bool { p.c < h.len() && p.o + n <= h[p.c as int].len() && p.o + n <= 0x1_0000_0000 }
''')
L('dj', '''
pub open spec fn dj(z: Ptr, n: int, x: Ptr, m: int) -> bool { z.c != x.c || x.o + m <= z.o || z.o + n <= x.o }
''')
L('pv', '''
/// value of the n words at p
pub open spec fn pv(h: Hp, p: Ptr, n: int) -> int { rv(h[p.c as int], p.o as int, n) }
''')
L('lemma_frr', '''
pub proof fn lemma_frr(a: Hp, b: Hp, c: usize, lo: int, n: int, d: usize, l2: int, n2: int)
  requires frr(a, b, c, lo, n), d < a.len(), c < a.len(), 0 <= l2, l2 + n2 <= a[d as int].len(), d != c || l2 + n2 <= lo || l2 >= lo + n
  ensures rv(b[d as int], l2, n2) == rv(a[d as int], l2, n2)
{ assert forall|k: int| 0 <= k < n2 implies #[trigger] b[d as int][l2 + k] == a[d as int][l2 + k] by { if d != c { assert(b[d as int] == a[d as int]); } } lemma_rv_eq(b[d as int], l2, a[d as int], l2, n2); }
''')
for nm, sg, lem in (('add_vv_inner', '+', 'lemma_addc'), ('sub_vv_inner', '-', 'lemma_subc')):
    F(AG + nm, nm, props='C02 C25',
      req='inb(H, z, n as int), inb(H, x, n as int), inb(H, y, n as int), (x.c == z.c && x.o == z.o) || dj(z, n as int, x, n as int), (y.c == z.c && y.o == z.o) || dj(z, n as int, y, n as int)',
      ens='frr(O, H, z.c, z.o as int, n as int), H.len() == O.len(), r <= 1, pv(H, z, n as int) %s r * pw(n as int) == pv(O, x, n as int) %s pv(O, y, n as int)' % (sg, sg),
      loops={0: dict(inv='frr(h0, H, z.c, z.o as int, i0 as int), H.len() == h0.len(), acc0 <= 1, pv(H, z, i0 as int) %s acc0 * pw(i0 as int) == pv(h0, x, i0 as int) %s pv(h0, y, i0 as int)' % (sg, sg), ghost=['c0 = acc0'],
        le='let n = i0 as int; %s(pv(hl0, z, n), c0 as int, pv(h0, x, n) %s pv(h0, y, n), H[[z.c]][z.o + n] as int, acc0 as int, h0[[x.c]][x.o + n] as int, h0[[y.c]][y.o + n] as int, n); lemma_step(H[[z.c]], z.o as int, n); lemma_step(h0[[x.c]], x.o as int, n); lemma_step(h0[[y.c]], y.o as int, n);' % (lem, sg))})
for nm, sg, lem in (('add_vw_inner', '+', 'lemma_addc'), ('sub_vw_inner', '-', 'lemma_subc')):
    F(AG + nm, nm, props='C02 C25',
      req='inb(H, z, n as int), inb(H, x, n as int), (x.c == z.c && x.o == z.o) || dj(z, n as int, x, n as int)',
      ens='frr(O, H, z.c, z.o as int, n as int), n > 0 ==> r <= 1, pv(H, z, n as int) %s r * pw(n as int) == pv(O, x, n as int) %s y' % (sg, sg),
      loops={0: dict(inv='frr(h0, H, z.c, z.o as int, i0 as int), i0 > 0 ==> acc0 <= 1, pv(H, z, i0 as int) %s acc0 * pw(i0 as int) == pv(h0, x, i0 as int) %s y' % (sg, sg), ghost=['c0 = acc0'], pre='assert(y * 1 == y);',
        le='let n = i0 as int; %s(pv(hl0, z, n), c0 as int, pv(h0, x, n) %s y, H[[z.c]][z.o + n] as int, acc0 as int, h0[[x.c]][x.o + n] as int, 0, n); lemma_step(H[[z.c]], z.o as int, n); lemma_step(h0[[x.c]], x.o as int, n);' % (lem, sg))})
L('lemma_mulc', '''
/// one step of multiply-accumulate: v + c P = a y + b
pub proof fn lemma_mulc(v: int, c: int, a: int, b: int, y: int, out: int, c2: int, x: int, w: int, n: int)
  requires n >= 0, v + c * pw(n) == a * y + b, out + c2 * 0x1_0000_0000 == x * y + w + c
  ensures v + out * pw(n) + c2 * pw(n + 1) == (a + x * pw(n)) * y + (b + w * pw(n))
{ let P = pw(n); assert(pw(n + 1) == 0x1_0000_0000 * P); assert((out + c2 * 0x1_0000_0000) * P == (x * y + w + c) * P); 
  assert(v + out * P + c2 * (0x1_0000_0000 * P) == (a + x * P) * y + (b + w * P)) by(nonlinear_arith) requires v + c * P == a * y + b, (out + c2 * 0x1_0000_0000) * P == (x * y + w + c) * P; }
''')
L('lemma_mulword', '''
pub proof fn lemma_mulword(x: u32, y: u32) ensures (x as u64) * (y as u64) <= 0xffff_fffe_0000_0001u64, x * y <= 0xffff_fffe_0000_0001
{ assert(x * y <= 0xffff_ffff * 0xffff_ffff) by(nonlinear_arith) requires 0 <= x <= 0xffff_ffff, 0 <= y <= 0xffff_ffff; }
''')
L('lemma_lohi', '''
pub proof fn lemma_lohi(z: u64) ensures (z >> 32) == z as int / 0x1_0000_0000, (z & 0xffff_ffff) == z as int % 0x1_0000_0000, (z >> 32) <= 0xffff_ffff, (z & 0xffff_ffff) <= 0xffff_ffff, (z & 0xffff_ffff) + (z >> 32) * 0x1_0000_0000 == z
{ assert((z >> 32) == z / 0x1_0000_0000) by(bit_vector); assert((z & 0xffff_ffff) == z % 0x1_0000_0000) by(bit_vector); }
''')
F(AG + 'mul_ww', 'mul_ww', props='C02', noheap=True, ens='r.0 * 0x1_0000_0000 + r.1 == x * y', nob=True, at={'start': 'lemma_mulword(x, y);', 'ret': 'lemma_lohi(z);'})
F(AG + 'mul_add_www', 'mul_add_www', props='C02', noheap=True, ens='r.0 * 0x1_0000_0000 + r.1 == x * y + c', nob=True, at={'start': 'lemma_mulword(x, y);', 'ret': 'lemma_lohi(z);'})
F(AG + 'add_mul_vvw_inner', 'add_mul_vvw_inner', props='C02 C25',
  req='inb(H, z, n as int), inb(H, x, n as int), dj(z, n as int, x, n as int)',
  ens='frr(O, H, z.c, z.o as int, n as int), pv(H, z, n as int) + r * pw(n as int) == pv(O, x, n as int) * y + pv(O, z, n as int)',
  loops={0: dict(inv='frr(h0, H, z.c, z.o as int, i0 as int), pv(H, z, i0 as int) + acc0 * pw(i0 as int) == pv(h0, x, i0 as int) * y + pv(h0, z, i0 as int)', ghost=['c0 = acc0'],
    ls='let a = h0[[x.c]][x.o + i0]; lemma_mulword(a, y); assert(c0 <= 0xffff_ffff);',
    le='let n = i0 as int; lemma_mulc(pv(hl0, z, n), c0 as int, pv(h0, x, n), pv(h0, z, n), y as int, H[[z.c]][z.o + n] as int, acc0 as int, h0[[x.c]][x.o + n] as int, h0[[z.c]][z.o + n] as int, n); lemma_step(H[[z.c]], z.o as int, n); lemma_step(h0[[x.c]], x.o as int, n); lemma_step(h0[[z.c]], z.o as int, n);')})
