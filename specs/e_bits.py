for nm, op, sp in (('and', '&', '&&'), ('or', '|', '||'), ('xor', '^', '!='), ('andn', '& !', '&& !')):
    w = lambda x, y: '%s %s%s' % (x, op, y)
    L('lemma_bits_' + nm, '''
pub proof fn lemma_bits_%(nm)s(a: Seq<u32>, b: Seq<u32>, r: Seq<u32>) requires forall|k: int| k >= 0 ==> #[trigger] wd(r, k) == wd(a, k) %(op)swd(b, k)
  ensures forall|i: int| i >= 0 ==> #[trigger] bit(val(r), i) == (bit(val(a), i) %(sp)sbit(val(b), i))
{
  assert forall|i: int| i >= 0 implies #[trigger] bit(val(r), i) == (bit(val(a), i) %(sp)sbit(val(b), i)) by {
    lemma_vbit(a, i); lemma_vbit(b, i); lemma_vbit(r, i); let k = i / 32; let j = (i %% 32) as u32; let x = wd(a, k); let y = wd(b, k); assert(wd(r, k) == x %(op)sy); let z = x %(op)sy;
    lemma_wbit(x, j); lemma_wbit(y, j); lemma_wbit(z, j);
    assert(((z >> j) & 1 == 1) == ((((x >> j) & 1) == 1) %(sp)s(((y >> j) & 1) == 1))) by(bit_vector) requires j < 32, z == x %(op)sy;
  }
}''' % dict(nm=nm, op=op + ' ' if '!' not in op else op, sp=sp + ' ' if '!' not in sp or sp == '!=' else sp))
BITS = {'and': '(bit(A, i) && bit(B, i))', 'or': '(bit(A, i) || bit(B, i))', 'xor': '(bit(A, i) != bit(B, i))', 'andn': '(bit(A, i) && !bit(B, i))'}
def bpost(nm, v='nv'): return '(forall|i: int| i >= 0 ==> #[trigger] bit(%s(H, X), i) == %s)' % (v, BITS[nm])
def sub(t, x, a, b): return re.sub(r'\bA\b', a, re.sub(r'\bB\b', b, re.sub(r'\bX\b', x, t)))
def binv(w): return '''fr(h0, H, slf), H.len() == h0.len(), H[[slf]].len() == h0[[slf]].len(), forall|k: int| i0 <= k < H[[slf]].len() ==> H[[slf]][k] == h0[[slf]][k], forall|k: int| 0 <= k < i0 ==> H[[slf]][k] == ''' + w
NB = 'lemma_bw0();'
_fr = 'cn(H, slf), cn(H, rhs), !na(H, slf), !na(H, rhs)'
def _ens(nm): return 'fr(O, H, slf), H.len() == O.len(), cn(H, slf), !na(H, slf), ' + sub(bpost(nm), 'slf', 'nv(O, slf)', 'nv(O, rhs)')
def _push(op): return """fr(h0, H, slf), H.len() == h0.len(), slf != rhs, H[[slf]].len() == mi + i1, mi == h0[[slf]].len(), ma == h0[[rhs]].len(), n1 == ma - mi,
   forall|k: int| 0 <= k < mi ==> H[[slf]][k] == h0[[slf]][k] %s h0[[rhs]][k], forall|k: int| mi <= k < mi + i1 ==> H[[slf]][k] == h0[[rhs]][k]""" % op
F(NAT + 'bitand_inner', 'bitand_inner', props='C05 C06', req=_fr, ens=_ens('and'), loops={0: dict(inv=binv('h0[[slf]][k] & h0[[rhs]][k]'))},
  at={'before trim_head_zero:0': NB + 'lemma_bits_and(h0[[slf]], h0[[rhs]], H[[slf]]);'})
F(NAT + 'bitor_inner', 'bitor_inner', props='C05 C06', req=_fr, ens=_ens('or'), loops={0: dict(inv=binv('h0[[slf]][k] | h0[[rhs]][k]')), 1: dict(inv=_push('|'))},
  at={'ret': NB + 'assert(forall|x: u32, y: u32| x != 0 || y != 0 ==> #[trigger] (x | y) != 0) by(bit_vector); lemma_bits_or(h0[[slf]], h0[[rhs]], H[[slf]]);'})
F(NAT + 'bitxor_inner', 'bitxor_inner', props='C05 C06', req=_fr, ens=_ens('xor'), loops={0: dict(inv=binv('h0[[slf]][k] ^ h0[[rhs]][k]')), 1: dict(inv=_push('^'))},
  at={'before trim_head_zero:0': NB + 'lemma_bits_xor(h0[[slf]], h0[[rhs]], H[[slf]]);'})
F(NAT + 'and_not_assign', 'and_not_assign', props='C05 C06 C07 C08', req='cn(H, slf), cn(H, rhs)',
  ens='fr(O, H, slf), H.len() == O.len(), cn(H, slf), na(H, slf) == (na(O, slf) || na(O, rhs)), !na(H, slf) ==> ' + sub(bpost('andn'), 'slf', 'nv(O, slf)', 'nv(O, rhs)'),
  loops={0: dict(inv=binv('h0[[slf]][k] & !h0[[rhs]][k]'))},
  at={'before trim_head_zero:0': NB + 'lemma_bits_andn(h0[[slf]], h0[[rhs]], H[[slf]]);'})
F(NAT + 'and_not', 'and_not', props='C05 C06 C07 C08', req='cn(H, slf), cn(H, rhs)',
  ens='ex(O, H), r >= O.len(), cn(H, r), na(H, r) == (na(O, slf) || na(O, rhs)), !na(H, r) ==> ' + sub(bpost('andn'), 'r', 'nv(O, slf)', 'nv(O, rhs)'))
for tr, m, nm in (('BitAnd', 'bitand', 'and'), ('BitOr', 'bitor', 'or'), ('BitXor', 'bitxor', 'xor')):
    natop(tr, m, '', bpost(nm), 'C05', m, mod='bit')
