"""Contracts of the disjoint-set structure."""
from cxx2why.run import Unit
from cxx2why.trans import Fn, Loop, params

V = 'unsigned int'
PRE = r'''
  type parents = fmap int int
  (* rt maps every vertex to the representative of its class *)
  predicate is_rt (p:parents) (rt:int->int) =
    forall u. mdom u p -> mdom (rt u) p /\ mval p (rt u) = rt u /\ mdom (mval p u) p /\ rt (mval p u) = rt u /\ (mval p u = u -> rt u = u)
  (* parent links lead to smaller ranks *)
  predicate ranked (p:parents) (rk:int->int) =
    forall u. mdom u p -> rk u >= 0 /\ mdom (mval p u) p /\ (mval p u <> u -> rk (mval p u) < rk u)
  predicate pwf (p:parents) = (exists rt. is_rt p rt) /\ (exists rk. ranked p rk)
  predicate valid_ids (p:parents) = forall u. mdom u p -> 0 <= u < 4294967296
  predicate ufwf (f:uf) = pwf f.uf_parent /\ valid_ids f.uf_parent

  (* choice of a rank function, for termination arguments only *)
  val ghost function rank_of (p:parents) : int->int
    ensures { (exists rk. ranked p rk) -> ranked p result }
  val ghost function root_of (p:parents) : int->int
    ensures { (exists rt. is_rt p rt) -> is_rt p result }

  let rec ghost rank_root (p:parents) (rt rk:int->int) (u:int)
    requires { is_rt p rt /\ ranked p rk /\ mdom u p }
    ensures { rk (rt u) <= rk u /\ (mval p u <> u -> rk (rt u) < rk u) }
    variant { rk u }
  = if pure { mval p u <> u } then rank_root p rt rk (pure { mval p u })

  let rec ghost rt_unique (p:parents) (rt rt2 rk:int->int) (u:int)
    requires { is_rt p rt /\ is_rt p rt2 /\ ranked p rk /\ mdom u p }
    ensures { rt u = rt2 u }
    variant { rk u }
  = if pure { mval p u <> u } then rt_unique p rt rt2 rk (pure { mval p u })

  let lemma unique (p:parents) (rt rt2:int->int)
    requires { pwf p /\ is_rt p rt /\ is_rt p rt2 }
    ensures { forall u. mdom u p -> rt u = rt2 u }
  = let rk = rank_of p in
    let lemma one (u:int) requires { mdom u p } ensures { rt u = rt2 u } = rt_unique p rt rt2 rk u in ()

  (* redirecting a vertex to its representative keeps the structure *)
  let lemma compress (p:parents) (u c:int)
    requires { pwf p /\ mdom u p }
    requires { forall rt. is_rt p rt -> c = rt u }
    ensures { pwf (mset p u c) }
    ensures { forall rt. is_rt p rt -> is_rt (mset p u c) rt }
  = let rk = rank_of p in
    rank_root p (root_of p) rk u;
    let ghost q = mset p u c in
    assert { is_rt q (root_of p) };
    assert { ranked q rk }

  (* linking one representative below another *)
  let lemma link (p:parents) (a b:int)
    requires { pwf p /\ mdom a p /\ mdom b p /\ mval p a = a /\ mval p b = b }
    ensures { pwf (mset p a b) }
    ensures { forall rt rt2. is_rt p rt -> is_rt (mset p a b) rt2 -> forall v. mdom v p -> rt2 v = if rt v = a then b else rt v }
  = let rt = root_of p in
    let rk = rank_of p in
    let ghost q = mset p a b in
    let ghost rt2 : int->int = pure { fun v -> if rt v = a then b else rt v } in
    let ghost rk2 : int->int = pure { fun v -> if rt v = a && a <> b then rk v + rk b + 1 else rk v } in
    assert { forall v. mdom v p -> mval p v <> v -> rt (mval p v) = rt v };
    assert { is_rt q rt2 };
    assert { ranked q rk2 };
    assert { pwf q };
    assert { forall rt3. is_rt q rt3 -> forall v. mdom v p -> rt3 v = rt2 v }

  predicate keyamong (e:seq (int,int)) (m:int) (c:int) = exists q. 0 <= q < m /\ fst_l e[q] = c
  lemma keyamong_step : forall e m c. 0 <= m -> (keyamong e (m+1) c <-> (keyamong e m c \/ c = fst_l e[m]))
  predicate among (e:seq int) (b m:int) (c:int) = exists q. b <= q < m /\ e[q] = c
  lemma among_step : forall e b m c. b <= m -> (among e b (m+1) c <-> (among e b m c \/ c = e[m]))
  let lemma among_slice (e:seq int) (b m c:int)
    requires { 0 <= b <= m <= length e }
    ensures { smem c e[b .. m] <-> among e b m c }
  = assert { forall q. 0 <= q < m - b -> e[b .. m][q] = e[b+q] };
    assert { forall q. b <= q < m -> e[b .. m][q-b] = e[q] }
'''
P = '$this.uf_parent'
OP = '(old $this).uf_parent'
DOM = '[vertices] forall v. mdom v %s <-> mdom v %s' % (P, OP)
SAME = '[same classes] forall rt. is_rt %s rt -> is_rt %s rt' % (OP, P)
C = 'UnionFind<unsigned int>'


def fns():
    R = ['ufwf $this']
    OUT = '$result_'
    return [
        Fn('find', C + '::find', requires=R + ['mdom $u ' + P], variant='rank_of %s $u' % P,
           ensures=[DOM, SAME, '[representative] forall rt. is_rt %s rt -> $result = rt $u' % OP, '[is a vertex] mdom $result ' + P,
                    '[fixed point] mval %s $result = $result' % P, '[well-formed] ufwf $this',
                    '[the same representatives] forall x. mdom x %s -> root_of %s x = root_of %s x' % (P, P, OP)],
           entry=['let ghost p0 = pure { %s } in' % P, 'assert { is_rt p0 (root_of p0) };', 'assert { ranked p0 (rank_of p0) };']),
        Fn('merge', C + '::merge', requires=R + ['mdom $u ' + P, 'mdom $v ' + P],
           ensures=[DOM, '[classes joined, the second keeps its representative] forall rt rt2 x. is_rt %s rt -> is_rt %s rt2 -> mdom x %s -> rt2 x = if rt x = rt $u then rt $v else rt x' % (OP, P, P),
                    '[well-formed] ufwf $this', '[representatives] forall x. mdom x %s -> root_of %s x = if root_of %s x = root_of %s $u then root_of %s $v else root_of %s x' % (P, P, OP, OP, OP, OP)]),
        Fn('uf_ctor', C + '::UnionFind', pred=lambda n: len(params(n)) == 2,
           requires=['forall x. smem x $s[$begin .. $end] -> 0 <= x < 4294967296'],
           ensures=['[vertices] forall v. mdom v $result.uf_parent <-> smem v $s[$begin .. $end]',
                    '[singletons] forall v. mdom v $result.uf_parent -> mval $result.uf_parent v = v',
                    '[well-formed] ufwf $result'],
           loops=[Loop(['[vertices so far] forall v. mdom v %s <-> among $s $begin $K0 v' % P,
                        '[singletons] forall v. mdom v %s -> mval %s v = v' % (P, P)])],
           exit=['assert { is_rt $result.uf_parent (fun x -> x) };', 'assert { ranked $result.uf_parent (fun _ -> 0) };']),
        Fn('roots', C + '::roots', requires=R,
           ensures=[DOM, SAME, '[well-formed] ufwf $this',
                    '[appends all representatives, each once] exists s. $p1 = old $p1 ++ s /\\ distinct s /\\ forall rt. is_rt %s rt -> forall v. smem v s <-> (mdom v %s /\\ rt v = v)' % (OP, OP)],
           loops=[Loop([DOM, SAME, '[well-formed] ufwf $this',
                        '[representatives so far] forall rt. is_rt %s rt -> forall v. Fset.mem v $r <-> (keyamong $E0 $K0 v /\\ rt v = v)' % OP,
                        '[output] $p1 = old $p1'])]),
        Fn('get', C + '::get', requires=R + ['mdom $v ' + P],
           ensures=[DOM, SAME, '[well-formed] ufwf $this',
                    '[appends the class of the vertex, each once] exists s. $p2 = old $p2 ++ s /\\ distinct s /\\ forall rt. is_rt %s rt -> forall x. smem x s <-> (mdom x %s /\\ rt x = rt $v)' % (OP, OP)],
           loops=[Loop([DOM, SAME, '[well-formed] ufwf $this',
                        '[class so far] forall rt. is_rt %s rt -> forall x. Fset.mem x $r <-> (keyamong $E0 $K0 x /\\ rt x = rt $v)' % OP,
                        '[output] $p2 = old $p2'])]),
    ]


SRC = ('#include <vector>\n#include <set>\n#include <iterator>\n#include <aleph/topology/UnionFind.hh>\n'
       'template class aleph::topology::UnionFind<unsigned>;\n'
       'template aleph::topology::UnionFind<unsigned>::UnionFind(std::vector<unsigned>::iterator, std::vector<unsigned>::iterator);\n'
       'template void aleph::topology::UnionFind<unsigned>::roots(std::back_insert_iterator<std::vector<unsigned>>);\n'
       'template void aleph::topology::UnionFind<unsigned>::get(unsigned, std::back_insert_iterator<std::vector<unsigned>>);\n')


def unit(name, extra_fns=(), pre='', cpp='', only=None):
    return Unit(name, SRC + cpp, [f for f in fns() if f] + list(extra_fns), classes={C: 'uf'}, prelude=PRE + pre)
