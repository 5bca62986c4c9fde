"""Dualization: the anti-transpose of a boundary matrix."""
from .matrix import *
from .c03 import trust

T = '$this'
DM = '$dualMatrix'
PRE = '''
  predicate among (e:seq int) (m:int) (c:int) = exists q. 0 <= q < m /\\ e[q] = c
  lemma among_step : forall e m c. 0 <= m -> (among e (m+1) c <-> (among e m c \\/ c = e[m]))
  lemma among_all : forall e c. among e (length e) c <-> smem c e
  lemma whole : forall s:seq int. s[0 .. length s] = s
  lemma snoc_distinct : forall s:seq int, x. distinct s -> not smem x s -> distinct (snoc s x)
  predicate entry (m:bm) (n k c r:int) = n-1-k < r <= n-1 /\\ col m.bm_representation (n-1-r) (n-1-c)
'''
LEN = '[sizes] length %s = nc $this' % DM
RANGE = '[distinct rows] forall c. 0 <= c < nc $this -> distinct %s[c]' % DM


def dualize(kind):
    return Fn('dualize', 'BoundaryMatrix<%s<unsigned int>>::dualize' % KINDS[kind],
              requires=['bmwf $this', 'bounded (matof $this) (nc $this)'],
              ensures=['[size] nc $result = nc $this',
                       '[anti-transpose] forall j i. 0 <= j < nc $this -> 0 <= i < nc $this -> (matof $result j i <-> matof $this (nc $this-1-i) (nc $this-1-j))',
                       '[rows in range] bounded (matof $result) (nc $this)',
                       '[complementary dimensions] forall j top. 0 <= j < nc $this -> is_top $this top -> dims $result j = top - dims $this (nc $this-1-j)',
                       '[flag] $result.bm_isDualized <-> not $this.bm_isDualized',
                       '[well-formed] bmwf $result'],
              loops=[Loop(['[sizes] length $dualColumnSizes = nc $this'],
                          begin=['assert { [@expl:rows in range] forall r. col $this.bm_representation $K0 r -> 0 <= r < nc $this };']),
                     Loop(['[sizes] length $dualColumnSizes = nc $this']),
                     Loop([LEN, '[empty] forall c. 0 <= c < nc $this -> length %s[c] = 0' % DM, '[sizes] length $dualColumnSizes = nc $this']),
                     Loop([LEN, '[entries so far] forall c r. 0 <= c < nc $this -> (smem r %s[c] <-> entry $this (nc $this) $K0 c r)' % DM, RANGE],
                          begin=['assert { [@expl:rows in range] forall r. col $this.bm_representation $K0 r -> 0 <= r < nc $this };'],
                          end=['assert { [@expl:entries] forall c r. 0 <= c < nc $this -> (entry $this (nc $this) ($K0+1) c r <-> (entry $this (nc $this) $K0 c r \\/ (r = nc $this - 1 - $K0 /\\ col $this.bm_representation $K0 (nc $this - 1 - c)))) };']),
                     Loop([LEN, '[entries so far] forall c r. 0 <= c < nc $this -> (smem r %s[c] <-> (entry $this (nc $this) $K0 c r \\/ (r = nc $this - 1 - $K0 /\\ among $E1 $K1 (nc $this - 1 - c))))' % DM, RANGE],
                          begin=['let ghost dm0 = pure { %s } in' % DM,
                                 'assert { [@expl:new row] not among $E1 $K1 $E1[$K1] };',
                                 'assert { [@expl:new row] not entry $this (nc $this) $K0 (nc $this - 1 - $E1[$K1]) (nc $this - 1 - $K0) };'],
                          end=['assert { [@expl:row added] forall c. 0 <= c < nc $this -> %s[c] = (if c = nc $this - 1 - $E1[$K1] then snoc dm0[c] (nc $this - 1 - $K0) else dm0[c]) };' % DM]),
                     Loop(['[sizes] length $dualDimensions = nc $this',
                           '[dimensions so far] forall c top. is_top $this top -> nc $this - $K0 <= c < nc $this -> $dualDimensions[c] = top - dims $this (nc $this-1-c)',
                           '[dimensions in range] forall c. 0 <= c < nc $this -> 0 <= $dualDimensions[c] < 4294967296']),
                     Loop(['[matrix well-formed] bmwf $M', '[size] nc $M = nc $this', LEN,
                           '[rows kept] forall c r. 0 <= c < nc $this -> (smem r %s[c] <-> entry $this (nc $this) (nc $this) c r)' % DM, RANGE,
                           '[columns so far] forall c r. 0 <= c < $K0 -> (col $M.bm_representation c r <-> entry $this (nc $this) (nc $this) c r)',
                           '[later columns] forall c r. $K0 <= c < nc $this -> not col $M.bm_representation c r',
                           '[dimensions so far] forall c. 0 <= c < $K0 -> dims $M c = $dualDimensions[c]',
                           '[flag] $M.bm_isDualized = False'],
                          begin=['assert { [@expl:entries] forall c r. 0 <= c < nc $this -> (smem r %s[c] -> 0 <= r < nc $this) };' % DM,
                                 'sorted_length (sort_int %s[$K0]) 0 (pure { nc $this });' % DM])])


def mk(k):
    return unit(k, fns=trust(rep_fns(k)), extra_fns=[dualize(k)], pre=PRE + '''
  predicate is_top (m:bm) (top:int) =
    (forall c. 0 <= c < nc m -> dims m c <= top) /\\ (nc m > 0 -> exists c. 0 <= c < nc m /\\ dims m c = top)
''', theories=('bool.Bool', 'z2.Z2'))


UNITS = [mk(k) for k in KINDS]
