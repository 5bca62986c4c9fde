"""Contracts of the matrix representations and the reduction algorithms,
instantiated for each representation."""
from cxx2why.run import Unit
from cxx2why.trans import Fn, Loop

KINDS = {'vec': 'Vector', 'lst': 'List', 'set': 'Set'}
N = 'aleph::topology::representations::'
M32 = '4294967296'


def tu(kind, algos=True, extra=''):
    c = KINDS[kind]
    r = N + c + '<unsigned>'
    s = '#include <aleph/topology/BoundaryMatrix.hh>\n'
    s += '#include <set>\n#include <vector>\n'
    s += '#include <aleph/topology/representations/%s.hh>\n' % c
    if algos:
        s += '#include <aleph/persistentHomology/algorithms/Standard.hh>\n#include <aleph/persistentHomology/algorithms/Twist.hh>\n'
    s += 'template class %s;\n' % r
    s += 'template class aleph::topology::BoundaryMatrix<%s>;\n' % r
    s += 'template void %s::setColumn<std::vector<unsigned>::iterator>(unsigned, std::vector<unsigned>::iterator, std::vector<unsigned>::iterator);\n' % r
    s += 'template void aleph::topology::BoundaryMatrix<%s>::setColumn<std::vector<unsigned>::iterator>(unsigned, std::vector<unsigned>::iterator, std::vector<unsigned>::iterator);\n' % r
    if algos:
        for a in ('Standard', 'StandardRectangular', 'Twist'):
            s += 'template void aleph::persistentHomology::algorithms::%s::operator()<%s>(aleph::topology::BoundaryMatrix<%s>&);\n' % (a, r, r)
    return s + extra


def prelude(kind):
    el = 'm.rep_data[j].elts' if kind == 'set' else 'm.rep_data[j]'
    srt = '' if kind == 'set' else '(forall j. 0 <= j < length m.rep_data -> ssorted (colseq m j)) /\\'
    return '''
  function colseq (m: rep) (j: int) : seq int = %s
  predicate col (m: rep) (j i: int) = smem i (colseq m j)
  function ncols (m: rep) : int = length m.rep_data
  function dimof (m: rep) (j: int) : int = m.rep_dimensions[j]
  predicate wf (m: rep) =
    length m.rep_data = length m.rep_dimensions /\\
    length m.rep_data < 4294967296 /\\
    %s
    (forall j r. 0 <= j < length m.rep_data -> col m j r -> 0 <= r < 4294967296) /\\
    (forall j. 0 <= j < length m.rep_data -> 0 <= m.rep_dimensions[j] < 4294967296)
''' % (el, srt)


BM_PRE = '''
  function matof (m: bm) : mat = fun j i -> 0 <= j < ncols m.bm_representation && col m.bm_representation j i
  function dims (m: bm) (j:int) : int = dimof m.bm_representation j
  function nc (m: bm) : int = ncols m.bm_representation
  predicate bmwf (m: bm) = wf m.bm_representation
'''

OTHERS = '(forall c r. 0 <= c < ncols $this -> c <> %s -> (col $this c r <-> col (old $this) c r))'
DIMS = '(forall c. 0 <= c < ncols $this -> dimof $this c = dimof (old $this) c)'
WF = '[well-formed] wf $this'


def rep_fns(kind):
    C = KINDS[kind] + '<unsigned int>'
    R = ['wf $this']
    same = '[number of columns] ncols $this = ncols (old $this)'
    return [
        Fn('setNumColumns', C + '::setNumColumns', requires=R,
           ensures=[WF, '[number of columns] ncols $this = $numColumns',
                    '[kept columns] forall c r. 0 <= c < ncols $this -> (col $this c r <-> c < ncols (old $this) /\\ col (old $this) c r)',
                    '[kept dimensions] forall c. 0 <= c < ncols $this -> dimof $this c = if c < ncols (old $this) then dimof (old $this) c else 0']),
        Fn('getNumColumns', C + '::getNumColumns', requires=R, ensures=['[number of columns] $result = ncols $this']),
        Fn('getMaximumIndex', C + '::getMaximumIndex', requires=R + ['0 <= $column < ncols $this'],
           ensures=['[pivot reported iff the column is not empty] (let (_, ok) = $result in ok = True <-> exists r. col $this $column r)',
                    '[pivot is the largest row] (let (i, ok) = $result in ok = True -> col $this $column i /\\ forall r. col $this $column r -> r <= i)',
                    '[pivot of an empty column] (let (i, ok) = $result in ok = False -> i = 0)',
                    '[pivot in range] (let (i, _) = $result in 0 <= i < 4294967296)']),
        Fn('addColumns', C + '::addColumns',
           requires=R + ['0 <= $source < ncols $this', '0 <= $target < ncols $this', '$source <> $target'],
           ensures=[same,
                    '[target becomes the mod-2 sum] forall r. col $this $target r <-> (col (old $this) $source r <-> not col (old $this) $target r)',
                    '[other columns] ' + OTHERS % '$target', '[dimensions] ' + DIMS, WF]),
        Fn('setColumn', C + '::setColumn',
           requires=R + ['0 <= $column < ncols $this', 'distinct $s[$begin .. $end]',
                         'forall x. smem x $s[$begin .. $end] -> 0 <= x < 4294967296', '$end - $begin <= 4294967296'],
           ensures=[same,
                    '[column is the given set] forall r. col $this $column r <-> smem r $s[$begin .. $end]',
                    '[other columns] ' + OTHERS % '$column',
                    '[dimension] dimof $this $column = (if $begin = $end then 0 else $end - $begin - 1)',
                    '[other dimensions] forall c. 0 <= c < ncols $this -> c <> $column -> dimof $this c = dimof (old $this) c', WF]),
        Fn('getColumn', C + '::getColumn', requires=R + ['0 <= $column < ncols $this'],
           ensures=['[all rows] forall r. smem r $result <-> col $this $column r', '[ascending] ssorted $result']),
        Fn('clearColumn', C + '::clearColumn', requires=R + ['0 <= $column < ncols $this'],
           ensures=[WF, same, '[empty] forall r. not col $this $column r', '[other columns] ' + OTHERS % '$column', '[dimensions] ' + DIMS]),
        Fn('setDimension', C + '::setDimension', requires=R + ['0 <= $column < ncols $this'],
           ensures=[WF, same, '[columns] forall c r. 0 <= c < ncols $this -> (col $this c r <-> col (old $this) c r)',
                    '[dimension] dimof $this $column = $dimension',
                    '[other dimensions] forall c. 0 <= c < ncols $this -> c <> $column -> dimof $this c = dimof (old $this) c']),
        Fn('getDimension1', C + '::getDimension', params=['unsigned int'], requires=R + ['0 <= $column < ncols $this'],
           ensures=['[dimension] $result = dimof $this $column']),
        Fn('getDimension0', C + '::getDimension', params=[], requires=R,
           ensures=['[upper bound] forall c. 0 <= c < ncols $this -> dimof $this c <= $result',
                    '[attained] ncols $this > 0 -> exists c. 0 <= c < ncols $this /\\ dimof $this c = $result',
                    '[empty] ncols $this = 0 -> $result = 0']),
        Fn('rep_eq', C + '::operator==', requires=R + ['wf $p1'],
           entry=['assert { (forall c r. 0 <= c < ncols this -> ncols this = ncols $p1 -> (col this c r <-> col $p1 c r)) -> ncols this = ncols $p1 -> (forall c. 0 <= c < ncols this -> colseq this c = colseq $p1 c) };',
                  'assert { ncols this = ncols $p1 -> (forall c. 0 <= c < ncols this -> colseq this c = colseq $p1 c) -> this.rep_data == $p1.rep_data };',
                  'assert { ncols this = ncols $p1 -> (forall c. 0 <= c < ncols this -> dimof this c = dimof $p1 c) -> this.rep_dimensions == $p1.rep_dimensions };'],
           ensures=['[equality is equality of matrices] $result <-> (ncols $this = ncols $p1 /\\ (forall c. 0 <= c < ncols $this -> dimof $this c = dimof $p1 c) /\\ (forall c r. 0 <= c < ncols $this -> (col $this c r <-> col $p1 c r)))']),
    ]


D = '(matof (old $M))'
COMMON = ['[matrix well-formed] bmwf $M', '[size] nc $M = nc (old $M)', '[lookup size] length $lut = nc $M',
          '?[size variable] $numColumns = nc $M',
          '[dimensions] forall c. 0 <= c < nc $M -> dims $M c = dims (old $M) c',
          '[flag] $M.bm_isDualized = (old $M).bm_isDualized',
          '[rows in range] bounded (matof $M) (nc $M)']
WHILE = ['[matrix well-formed] bmwf $M', '[flag] $M.bm_isDualized = mj.bm_isDualized', '[size] nc $M = nc mj', '?[size variable] $numColumns = nc $M',
         '[dimensions] forall c. 0 <= c < nc $M -> dims $M c = dims mj c',
         '[other columns] forall c r. c <> $j -> matof $M c r = matof mj c r',
         '[current pivot] if $valid then pivot (matof $M) $j $i /\\ 0 <= $i < nc $M else (forall r. not matof $M $j r)',
         '[rows in range] forall r. matof $M $j r -> 0 <= r < nc $M',
         '[combination] reach %s (nc $M) $j (matof $M $j)' % D]
WBEGIN = ['let ghost m0 = pure { $M } in', 'let ghost i0 = pure { $i } in', 'let ghost k0 = pure { fst_l $lut[$i] } in']
WEND = ['assert { [@expl:column sum] forall r. matof $M $j r = xorb (matof m0 $j r) (matof m0 k0 r) };',
        'reach_add (pure { %s }) (pure { nc $M }) $j k0 (pure { matof m0 $j }) (pure { matof m0 k0 }) (pure { matof $M $j });' % D,
        'assert { [@expl:pivot decreases] forall r. matof $M $j r -> r < i0 };']
POST = ['[well-formed] bmwf $M', '[size] nc $M = nc (old $M)',
        '[dual flag unchanged] $M.bm_isDualized = (old $M).bm_isDualized', '[dimensions unchanged] forall c. 0 <= c < nc $M -> dims $M c = dims (old $M) c',
        '[rows in range] bounded (matof $M) (nc $M)',
        '[every column is the original one plus earlier ones] forall c. 0 <= c < nc $M -> reach %s (nc $M) c (matof $M c)' % D,
        '[pivots are distinct] reduced (matof $M) (nc $M)']
STD_LUT = ['[table entries are pivots] forall i. 0 <= i < nc $M -> snd_l $lut[i] -> 0 <= fst_l $lut[i] < $K0 /\\ pivot (matof $M) (fst_l $lut[i]) i',
           '[all pivots are in the table] forall k i. 0 <= k < $K0 -> 0 <= i < nc $M -> pivot (matof $M) k i -> $lut[i] = (k, True)']
REACH = '[combination] forall c. 0 <= c < nc $M -> reach %s (nc $M) c (matof $M c)' % D
FRAME = 'reach_frame (pure { %s }) (pure { nc $M }) (pure { matof mj }) (pure { matof $M }) $K%d %s;'


def reduction_fns(kind):
    pre = ['bmwf $M', 'bounded (matof $M) (nc $M)']
    hom = '[homogeneous] forall c r. matof $M c r -> dims $M c = dims $M r + 1'
    std = lambda nm, q: Fn(nm, q + '::operator()', requires=pre, ensures=POST,
             entry=['reach_all (pure { matof $M }) (pure { nc $M });'],
             loops=[Loop(COMMON + STD_LUT + [REACH], begin=['let ghost mj = pure { $M } in'],
                         end=[FRAME % (D, 0, '(-1)')]),
                    Loop(WHILE, variant='if $valid then $i + 1 else 0', begin=WBEGIN, end=WEND)])
    PROC0 = '(dims $M {0} > $d)'
    PROC1 = '(dims $M {0} > $d \\/ (dims $M {0} = $d /\\ {0} < $K1))'

    def tw(proc):
        return ['[table entries are pivots] forall i. 0 <= i < nc $M -> snd_l $lut[i] -> 0 <= fst_l $lut[i] < nc $M /\\ %s /\\ dims $M (fst_l $lut[i]) = dims $M i + 1 /\\ pivot (matof $M) (fst_l $lut[i]) i' % proc.format('(fst_l $lut[i])'),
                '[all pivots are in the table] forall k i. 0 <= k < nc $M -> 0 <= i < nc $M -> %s -> pivot (matof $M) k i -> $lut[i] = (k, True)' % proc.format('k'),
                hom, REACH]
    twist = Fn('twist', 'Twist::operator()',
               requires=pre + ['complex (matof $M) (nc $M)', 'forall j i. matof $M j i -> dims $M j = dims $M i + 1'],
               ensures=POST,
               entry=['reach_all (pure { matof $M }) (pure { nc $M });'],
               loops=[Loop(COMMON + ['[dimension range] 0 <= $d <= $dimension', '[top dimension] forall c. 0 <= c < nc $M -> dims $M c <= $dimension'] + tw(PROC0), variant='$d'),
                      Loop(COMMON + tw(PROC1), begin=['let ghost mj = pure { $M } in', 'let ghost ref ci = -1 in'],
                           end=['assert { [@expl:untouched columns] forall c r. c <> $K1 -> c <> ci -> matof $M c r = matof mj c r };',
                                'assert { [@expl:cleared column] 0 <= ci < nc $M -> ci <> $K1 -> ((forall r. not matof $M ci r) /\\ reach %s (nc $M) ci vzero) };' % D,
                                FRAME % (D, 1, 'ci')]),
                      Loop(WHILE + ['[homogeneous] forall r. matof $M $j r -> dims $M $j = dims $M r + 1'],
                           variant='if $valid then $i + 1 else 0', begin=WBEGIN, end=WEND,
                           after=['if $valid then reach_clear (pure { %s }) (pure { nc $M }) $j $i (pure { matof $M $j }) (pure { vzero });' % D,
                                  'if $valid then ci <- $i;'])])
    nb = lambda l: [x for x in l if 'rows in range' not in x]
    rect = Fn('standard_rect', 'StandardRectangular::operator()', requires=pre[:1],
              ensures=nb(POST)[:-1] + ['[pivots among the leading rows are distinct] reduced_low (matof $M) (nc $M)'],
              entry=['reach_all (pure { matof $M }) (pure { nc $M });'],
              loops=[Loop(nb(COMMON) + STD_LUT + [REACH], begin=['let ghost mj = pure { $M } in'], end=[FRAME % (D, 0, '(-1)')]),
                     Loop(nb(WHILE), variant='if $valid then $i + 1 else 0', begin=WBEGIN, end=WEND)])
    return [std('standard', 'Standard'), rect, twist]


def unit(kind, name=None, fns=None, extra_fns=(), pre='', theories=('bool.Bool', 'z2.Z2', 'z2.Facts'), cpp='', algos=True, bm=True):
    C = KINDS[kind] + '<unsigned int>'
    classes = {C: 'rep'}
    if bm:
        classes['BoundaryMatrix<%s>' % C] = 'bm'
    return Unit(name or kind, tu(kind, algos, cpp), (rep_fns(kind) if fns is None else fns) + list(extra_fns),
                classes=classes, theories=list(theories), prelude=prelude(kind) + (BM_PRE if bm else '') + pre)
