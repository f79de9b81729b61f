#!/usr/bin/env python3
"""Writes verus/overlay/71-red2.vspec: the reduction clauses of the two-map operations, one block for each family."""
import os
out = []
P = out.append
FAMS = {
 'u': dict(ut='K, V, L, W, S, X, ReduceT, ReduceOp, BothOp, LeftOp, RightOp', l='L', w='W', fn='transmute_with_transmuted', lr='lured', mr='ured',
           okl='okm::<K, V, S, X, ReduceT, ReduceOp, LeftOp>(reduce_op, left_op)', okr='okm::<L, W, S, X, ReduceT, ReduceOp, RightOp>(reduce_op, right_op)',
           brl='muloc::<K, V, S, X, ReduceT, LeftOp>(left_op)', brr='muloc::<L, W, S, X, ReduceT, RightOp>(right_op)',
           wl='wu::<K, V, S, X, ReduceT, LeftOp>(left_op)', wr='wu::<L, W, S, X, ReduceT, RightOp>(right_op)', values='transmute_with_transmuted_values', vals='this_key', lnode=1, lab='C12'),
 'tm': dict(ut='K, V, L, W, ReduceT, ReduceOp, BothOp, LeftOp, RightOp', l='L', w='W', fn='transform_with_transmuted', lr='ltred', mr='tred',
           okl='okt::<K, V, ReduceT, ReduceOp, LeftOp>(reduce_op, left_op)', okr='okm::<L, W, K, V, ReduceT, ReduceOp, RightOp>(reduce_op, right_op)',
           brl='mtloc::<K, V, ReduceT, LeftOp>(left_op)', brr='muloc::<L, W, K, V, ReduceT, RightOp>(right_op)',
           wl='wt::<K, V, ReduceT, LeftOp>(left_op)', wr='wu::<L, W, K, V, ReduceT, RightOp>(right_op)', values='transform_with_transmuted_snode_impl', vals='right_key', lnode=1, lab='C12,C13'),
 'mt': dict(ut='K, V, L, W, ReduceT, ReduceOp, BothOp, LeftOp, RightOp', l='L', w='W', fn='transmute_with_transformed', lr='ltred', mr='tred',
           okl='okm::<K, V, L, W, ReduceT, ReduceOp, LeftOp>(reduce_op, left_op)', okr='okt::<L, W, ReduceT, ReduceOp, RightOp>(reduce_op, right_op)',
           brl='muloc::<K, V, L, W, ReduceT, LeftOp>(left_op)', brr='mtloc::<L, W, ReduceT, RightOp>(right_op)',
           wl='wu::<K, V, L, W, ReduceT, LeftOp>(left_op)', wr='wt::<L, W, ReduceT, RightOp>(right_op)', values='transmute_with_transformed_snode_impl', vals='right', lnode=0, lab='C12,C13'),
 'f': dict(ut='K, V, ReduceT, ReduceOp, BothOp, LeftOp, RightOp', l='K', w='V', fn='transform_with_transformed', lr='ljred', mr='jred',
           okl='okt::<K, V, ReduceT, ReduceOp, LeftOp>(reduce_op, left_op)', okr='okt::<K, V, ReduceT, ReduceOp, RightOp>(reduce_op, right_op)',
           brl='mtloc::<K, V, ReduceT, LeftOp>(left_op)', brr='mtloc::<K, V, ReduceT, RightOp>(right_op)',
           wl='wt::<K, V, ReduceT, LeftOp>(left_op)', wr='wt::<K, V, ReduceT, RightOp>(right_op)', values='transform_with_transformed_snode_impl', vals='right', lnode=1, lab='C12,C13'),
}
def fam(x, d):
    L, W, fn = d['l'], d['w'], d['fn']
    P('// family ' + x)
    P('def UT ' + d['ut'])
    P('def O reduce_op, both_op, left_op, right_op')
    P('def OK ok%s::<$UT>($O)' % x)
    P('def WW wj%s::<$UT>($O)' % x)
    HO = 'ok%s, wj%s, okm, okt, rs' % (x, x)
    vals = {'this_key': '*this_key, *this_value, *right_key, *right_value', 'right_key': 'this.key, this.value, *right_key, *right_value', 'right': 'this.key, this.value, right.key, right.value'}[d['vals']]
    valp = {'this_key': '*this_key, *this_value, *right_key, *right_value', 'right_key': 'ske(*this), sve(*this), *right_key, *right_value', 'right': 'ske(*this), sve(*this), ske(*right), sve(*right)'}[d['vals']]
    T = {'C': 'MNode::C(*this)', 'L': 'MNode::<H, F, K, V, M>::L(*this)', 'S': 'MNode::<H, F, K, V, M>::S(*this)'}
    R = {'C': 'MNode::<H, F, %s, %s, M>::C(*right)' % (L, W), 'L': 'MNode::<H, F, %s, %s, M>::L(*right)' % (L, W), 'S': 'MNode::<H, F, %s, %s, M>::S(*right)' % (L, W)}
    if x == 'u': R['C'] = 'MNode::C(*right)'
    G = 'K, V, %s, %s' % (L, W)
    P('more snode::%s : C12' % d['values'])
    P('  hide jv, ok%s, wj%s' % (x, x))
    P('  pre rz_%s::<$UT>(%s, $O);' % (x, valp))
    P('  ensures jv(%s(res), $OK, $WW, %s)' % (d['lr'], vals))
    P('more lnode::%s_snode_impl : C12' % fn)
    P('  hide jl, jv, rl, radd, ' + HO)
    P('  pre rf_%s::<$UT>($O); rs_%s::<$UT>(*this, *right, $O); jv_of::<%s, ReduceT>(ln(*this), *right, $OK, $WW);' % (x, x, G))
    P('  ensures jl(%s(res), $OK, $WW, LNodeNext::L(*this), LNodeNext::S(*right))' % d['lr'])
    if d['lnode']:
        P('more lnode::%s_lnode_impl : C12' % fn)
        P('  hide ji, jv, rl, radd, ' + HO)
        P('  pre rf_%s::<$UT>($O); ri_%s::<$UT>(*this, old(rights)@, $O);' % (x, x))
        P('  ensures ji(%s(res), $OK, $WW, LNodeNext::L(*this), old(rights)@)' % d['lr'])
        P('more lnode::%s_lnode : C12' % fn)
        P('  hide ji, jk, jl, jw, rl, ' + HO)
        N = 'LNodeNext::L(*this), LNodeNext::L(*right)'
        P('  pre rf_%s::<$UT>($O); rk_%s::<$UT>(%s, $O); jl_m::<H, F, %s, M, ReduceT>(%s, depth as nat, $OK, $WW); ra_%s::<$UT>(%s, $O);' % (x, x, N, G, N, x, N))
        P('  loop 1')
        P('    inv jk(%s(next), $OK, $WW, %s, vp_s1@.take(vp_i1 as int))' % (d['lr'], N))
        P('    begin rt_%s::<$UT>(%s, vp_s1@, vp_i1 - 1, $O);' % (x, N))
        P('  ensures jw(%s(res), $OK, $WW, Some(%s), Some(%s), depth as nat)' % (d['mr'], T['L'], R['L']))
    for f, a in (('lnode', 'L'), ('snode', 'S')):
        N = 'LNodeNext::%s(*this), LNodeNext::S(*right)' % a
        P('more %s::%s_snode : C12' % (f, fn))
        P('  hide jl, jw, jv, rl, ' + HO)
        P('  pre rf_%s::<$UT>($O); jv_of::<%s, ReduceT>(LNodeNext::%s(*this), *right, $OK, $WW); jl_m::<H, F, %s, M, ReduceT>(%s, depth as nat, $OK, $WW); ra_%s::<$UT>(%s, $O);' % (x, G, a, G, N, x, N))
        P('  ensures jw(%s(res), $OK, $WW, Some(%s), Some(%s), depth as nat)' % (d['mr'], T[a], R['S']))
    for b, f in (('C', 'cnode'), ('L', 'lnode'), ('S', 'snode')):
        A, B = T['C'], R[b]
        rl = '' if b == 'C' else ' rl_n::<H, F, %s, %s, M, ReduceT>(%s, %s, %s);' % (L, W, B, d['okr'] if b == 'L' else d['brr'], d['wr'])
        fin = ' jp_fin::<H, F, %s, M, ReduceT, ReduceOp>(%s, %s, depth as nat, reduce_op, $OK, $WW);' % (G, A, B)
        step = ['  loop 0', '    inv jp(reduced, $OK, $WW, %s, %s, depth as nat, %s, vp_i0 as nat)' % (A, B, 'range.start as nat' if x == 'f' and b == 'C' else '0'),
                '    begin rf_%s::<$UT>($O); rp_%s::<H, F, M, $UT>(%s, %s, depth as nat, (vp_i0 - 1) as nat, $O);' % (x, x, A, B) + rl]
        P('more cnode::%s_%s : %s' % (fn, f, d['lab']))
        P('  hide jp, jw, rn, rl, ' + HO)
        P('  pre rf_%s::<$UT>($O);' % x + fin + rl)
        if not (x == 'f' and b == 'C'):
            out.extend(step)
        P('  ensures jw(%s(res), $OK, $WW, Some(%s), Some(%s), depth as nat)' % (d['mr'], A, B))
        if x == 'f' and b == 'C':
            P('more cnode::%s_%s_impl : %s' % (fn, f, d['lab']))
            P('  hide jp, jw, rn, rl, ' + HO)
            P('  pre rf_%s::<$UT>($O);' % x + fin)
            out.extend(step)
            P('  ensures jp(res.%d, $OK, $WW, %s, %s, depth as nat, range.start as nat, range.end as nat)' % (d.get('impl', 5), A, B))
    for f, a in (('cnode::', 'Some(MNode::C(*this))'), ('lnode::', 'Some(MNode::L(*this))'), ('snode::', 'Some(MNode::S(*this))'), ('mnode::MNode::', 'Some(*self)')):
        P('more %s%s : %s' % (f, fn, d['lab']))
        P('  hide jw, ok%s, wj%s' % (x, x))
        P('  ensures jw(%s(res), $OK, $WW, %s, Some(*right), depth as nat)' % (d['mr'], a))
    for b, f in (('L', 'lnode'), ('S', 'snode')):
        P('more mnode::MNode::%s_%s : %s' % (fn, f, d['lab']))
        P('  hide jw, ok%s, wj%s' % (x, x))
        P('  ensures jw(%s(res), $OK, $WW, Some(*self), Some(%s), depth as nat)' % (d['mr'], R[b]))
    k = 1
    for f, s in (('hash_trie::HashTrie', ''), ('map::HashTrieMap', 'set.')):
        P('more %s::%s : %s' % (f, fn, d['lab']))
        P('  hide jw, ok%s, wj%s' % (x, x))
        P('  ensures jw(res.%d, $OK, $WW, Some(self.%sroot), Some(right.%sroot), 0)' % (k, s, s))
P('more transformations::MapTransmute::flip : C12')
P('  ensures *self is Generic ==> res is Generic')
P('more transformations::MapTransform::flip_transform_transmute : C12')
P('  ensures *self is Generic ==> res is Generic')
P('more transformations::MapTransform::flip_transmute_transform : C12')
P('  ensures *self is Generic ==> res is Generic')
RA = 'rs::<ReduceT, ReduceOp>(reduce_op)'
P('more lnode::transform_with_transformed_result : C12')
P('  ensures radd(ltred(res), mtred(result), ltred(next), %s)' % RA)
P('more lnode::transform_with_transmuted_result : C12')
P('  ensures radd(ltred(res), mtred(result), lured(next), %s)' % RA)
P('more lnode::transmute_with_transformed_result : C12')
P('  ensures radd(ltred(res), mured(result), ltred(next), %s)' % RA)
P('more lnode::joint_transform_with_joint_transformed_result : C12')
P('  ensures radd(ljred(res), mjred(result), ljred(next), %s)' % RA)
P('more lnode::joint_transform_with_transformed_result : C12')
P('  ensures radd(ljred(res), mjred(result), ltred(next), %s)' % RA)
P('more lnode::transform_with_joint_transformed_result : C12')
P('  ensures radd(ljred(res), mtred(result), ljred(next), %s)' % RA)
import sys
for x in (sys.argv[1:] or FAMS): fam(x, FAMS[x])
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '../verus/overlay/71-red2.vspec'), 'w').write('\n'.join(out) + '\n')
