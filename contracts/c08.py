"""Filtration orders."""
from .sc import *
from .c03 import trust

SRC = COMPLEX_SRC + """
#include <aleph/topology/filtrations/Data.hh>
#include <aleph/topology/filtrations/LowerStar.hh>
#include <aleph/topology/filtrations/UpperStar.hh>
namespace F = aleph::topology::filtrations;
template class aleph::topology::filtrations::Data<S>;
template class aleph::topology::filtrations::Data<S, std::greater<double>>;
template class aleph::topology::filtrations::LowerStar<S>;
template class aleph::topology::filtrations::UpperStar<S>;
template aleph::topology::filtrations::LowerStar<S>::LowerStar(std::vector<double>::iterator, std::vector<double>::iterator);
template aleph::topology::filtrations::UpperStar<S>::UpperStar(std::vector<double>::iterator, std::vector<double>::iterator);
template void aleph::topology::SimplicialComplex<S>::sort(F::Data<aleph::topology::Simplex<double, unsigned int>>&&);
template void aleph::topology::SimplicialComplex<S>::sort(F::Data<aleph::topology::Simplex<double, unsigned int>, std::greater<double>>&&);
template void aleph::topology::SimplicialComplex<S>::sort(F::LowerStar<aleph::topology::Simplex<double, unsigned int>>&);
template void aleph::topology::SimplicialComplex<S>::sort(F::UpperStar<aleph::topology::Simplex<double, unsigned int>>&);
"""
DL = 'Data<%s>' % S
DG = 'Data<%s, greater<double>>' % S
LS = 'LowerStar<%s>' % S
US = 'UpperStar<%s>' % S

PRE = r"""
  predicate elem (s:seq simplex) (x:simplex) = exists k. 0 <= k < length s /\ s[k] = x
  predicate same_elems (a s:seq simplex) = length s = length a /\ forall x. elem a x <-> elem s x
  (* weights do not decrease (increase) from faces to cofaces *)
  predicate monotone (s:seq simplex) = forall x y. elem s x -> elem s y -> is_face (vs x) (vs y) -> dat x <=. dat y
  predicate antitone (s:seq simplex) = forall x y. elem s x -> elem s y -> is_face (vs x) (vs y) -> dat y <=. dat x
  lemma elem_get : forall s k. 0 <= k < length s -> elem s s[k]
  predicate faces_first (s:seq simplex) = forall i j. 0 <= i < length s -> 0 <= j < length s -> is_face (vs s[i]) (vs s[j]) -> i < j
  predicate pwf (x:simplex) = swf x /\ length (vs x) > 0

  (* extremal value of the vertices *)
  predicate vmax_upto (f:seq real) (v:seq int) (m:int) (w:real) =
    (forall i. 0 <= i < m -> f[v[i]] <=. w) /\ ((exists i. 0 <= i < m /\ f[v[i]] = w) \/ (m <= 0 /\ w = f_lowest))
  predicate vmin_upto (f:seq real) (v:seq int) (m:int) (w:real) =
    (forall i. 0 <= i < m -> w <=. f[v[i]]) /\ ((exists i. 0 <= i < m /\ f[v[i]] = w) \/ (m <= 0 /\ w = f_max))
  let rec ghost function vmaxn (f:seq real) (v:seq int) (m:int) : real
    variant { m }
    ensures { vmax_upto f v m result }
  = if m <= 0 then f_lowest else
    let w = vmaxn f v (m-1) in
    let y = pure { f[v[m-1]] } in
    if pure { m = 1 \/ w <=. y } then y else w
  let rec ghost function vminn (f:seq real) (v:seq int) (m:int) : real
    variant { m }
    ensures { vmin_upto f v m result }
  = if m <= 0 then f_max else
    let w = vminn f v (m-1) in
    let y = pure { f[v[m-1]] } in
    if pure { m = 1 \/ y <=. w } then y else w
  function vmax (f:seq real) (v:seq int) : real = vmaxn f v (length v)
  function vmin (f:seq real) (v:seq int) : real = vminn f v (length v)
  lemma vmax_def : forall f v. vmax_upto f v (length v) (vmax f v)
  lemma vmin_def : forall f v. vmin_upto f v (length v) (vmin f v)
  predicate okf (f:seq real) (x:simplex) = forall i. 0 <= i < length (vs x) -> (vs x)[i] < length f
  predicate okc (f:seq real) (s:seq simplex) = forall k. 0 <= k < length s -> okf f s[k]
  predicate ffin (f:seq real) = forall k. 0 <= k < length f -> f_lowest <=. f[k] <=. f_max
  let lemma vmax_unique (f:seq real) (v:seq int) (w:real)
    requires { vmax_upto f v (length v) w }
    ensures { w = vmax f v }
  = assert { vmax_upto f v (length v) (vmax f v) }
  let lemma vmin_unique (f:seq real) (v:seq int) (w:real)
    requires { vmin_upto f v (length v) w }
    ensures { w = vmin f v }
  = assert { vmin_upto f v (length v) (vmin f v) }
  let lemma vmax_step (f:seq real) (v:seq int) (m:int) (w:real)
    requires { 0 <= m < length v /\ vmax_upto f v m w }
    requires { f_lowest <=. f[v[m]] }
    ensures { f[v[m]] <=. w -> vmax_upto f v (m+1) w }
    ensures { w <=. f[v[m]] -> vmax_upto f v (m+1) f[v[m]] }
  = assert { m > 0 -> exists i. 0 <= i < m /\ f[v[i]] = w }
  let lemma vmin_step (f:seq real) (v:seq int) (m:int) (w:real)
    requires { 0 <= m < length v /\ vmin_upto f v m w }
    requires { f[v[m]] <=. f_max }
    ensures { w <=. f[v[m]] -> vmin_upto f v (m+1) w }
    ensures { f[v[m]] <=. w -> vmin_upto f v (m+1) f[v[m]] }
  = assert { m > 0 -> exists i. 0 <= i < m /\ f[v[i]] = w }
  let lemma vmax_face (f:seq real) (v:seq int) (i:int)
    requires { 0 <= i < length v /\ length v > 1 }
    ensures { vmax f (face v i) <=. vmax f v }
  = let g = face v i in
    assert { forall k. 0 <= k < length g -> g[k] = if k < i then v[k] else v[k+1] };
    assert { forall k. 0 <= k < length g -> f[g[k]] <=. vmax f v };
    assert { vmax_upto f g (length g) (vmax f g) }
  let lemma vmin_face (f:seq real) (v:seq int) (i:int)
    requires { 0 <= i < length v /\ length v > 1 }
    ensures { vmin f v <=. vmin f (face v i) }
  = let g = face v i in
    assert { forall k. 0 <= k < length g -> g[k] = if k < i then v[k] else v[k+1] };
    assert { forall k. 0 <= k < length g -> vmin f v <=. f[g[k]] };
    assert { vmin_upto f g (length g) (vmin f g) }

  predicate lex_lt (x y:simplex) = lexlt (vs x) (vs y)
  predicate data_lt (_f:dataless) (x y:simplex) =
    if dat x = dat y then (if length (vs x) = length (vs y) then lexlt (vs x) (vs y) else length (vs x) < length (vs y))
    else dat x <. dat y
  predicate data_gt (_f:datagreater) (x y:simplex) =
    if dat x = dat y then (if length (vs x) = length (vs y) then lexlt (vs x) (vs y) else length (vs x) < length (vs y))
    else dat y <. dat x
  predicate lower_lt (f:lowerstar) (x y:simplex) =
    vmax f.lowerstar_values (vs x) <. vmax f.lowerstar_values (vs y) \/
    (vmax f.lowerstar_values (vs x) = vmax f.lowerstar_values (vs y) /\ lexlt (vs x) (vs y))
  predicate upper_lt (f:upperstar) (x y:simplex) =
    vmin f.upperstar_values (vs x) >. vmin f.upperstar_values (vs y) \/
    (vmin f.upperstar_values (vs x) = vmin f.upperstar_values (vs y) /\ lexlt (vs x) (vs y))
  lemma same_cwf : forall a s. same_elems a s -> uniq s -> cwf a -> cwf s
  lemma same_mono : forall a s. same_elems a s -> monotone a -> monotone s
  lemma same_anti : forall a s. same_elems a s -> antitone a -> antitone s
  lemma face_length : forall f v. is_face f v -> length f = length v - 1
  lemma face_before : forall f v. vwf v -> is_face f v -> lexlt f v
"""
COND = {'data_lt': 'dat x <=. dat y', 'data_gt': 'dat y <=. dat x', 'lower_lt': 'true', 'upper_lt': 'true', 'lex_lt': 'true'}
MONO = {'data_lt': 'monotone s', 'data_gt': 'antitone s', 'lower_lt': 'true', 'upper_lt': 'true', 'lex_lt': 'true'}
ORDERS = {'lex_lt': None, 'data_lt': 'dataless', 'data_gt': 'datagreater', 'lower_lt': 'lowerstar', 'upper_lt': 'upperstar'}
for o, t in ORDERS.items():
    text = r"""
  predicate sorted_@ (f:#) (s:seq simplex) = forall i j. 0 <= i < j < length s -> not @ f s[j] s[i]
  (* strict total order on the simplices of a complex, hence a strict weak order *)
  lemma @_irr : forall f x. pwf x -> not @ f x x
  lemma @_trans : forall f x y z [@ f x y, @ f y z]. pwf x -> pwf y -> pwf z -> @ f x y -> @ f y z -> @ f x z
  lemma @_total : forall f x y [@ f x y, @ f y x]. pwf x -> pwf y -> vs x <> vs y -> @ f x y \/ @ f y x
  lemma @_asym : forall f x y [@ f x y, @ f y x]. pwf x -> pwf y -> @ f x y -> not @ f y x
  (* strict weak order on the elements, as std::list::sort demands *)
  predicate swo_@ (f:#) (s:seq simplex) =
    (forall i. 0 <= i < length s -> not @ f s[i] s[i]) /\
    (forall i j k. 0 <= i < length s -> 0 <= j < length s -> 0 <= k < length s -> @ f s[i] s[j] -> @ f s[j] s[k] -> @ f s[i] s[k]) /\
    (forall i j k. 0 <= i < length s -> 0 <= j < length s -> 0 <= k < length s ->
       not @ f s[i] s[j] -> not @ f s[j] s[i] -> not @ f s[j] s[k] -> not @ f s[k] s[j] -> not @ f s[i] s[k] /\ not @ f s[k] s[i])
  let lemma @_swo (f:#) (s:seq simplex)
    requires { cwf s }
    ensures { swo_@ f s }
  = assert { forall i. 0 <= i < length s -> pwf s[i] };
    assert { forall i j. 0 <= i < length s -> 0 <= j < length s -> not @ f s[i] s[j] -> not @ f s[j] s[i] -> i = j }
  lemma @_face : forall f x y. pwf x -> pwf y -> is_face (vs x) (vs y) -> COND -> @ f x y
  let lemma @_first (f:#) (s:seq simplex)
    requires { cwf s /\ sorted_@ f s }
    ensures { MONO -> faces_first s }
  = assert { forall i. 0 <= i < length s -> pwf s[i] };
    assert { MONO -> forall i j. 0 <= i < length s -> 0 <= j < length s -> is_face (vs s[i]) (vs s[j]) -> @ f s[i] s[j] };
    assert { forall i. 0 <= i < length s -> not is_face (vs s[i]) (vs s[i]) }
  val mic_sort_@ (s:seq simplex) (f:#) : seq simplex
    requires { [@@expl:comparison is a strict weak order] swo_@ f s }
    ensures { same_elems s result }
    ensures { uniq s -> uniq result }
    ensures { sorted_@ f result }
"""
    if t is None:
        text = text.replace('(f:#) ', '').replace(' (f:#)', '').replace('f x. ', 'x. ').replace('forall f x', 'forall x').replace('_@ f ', '_@ ').replace('@ f ', '@ ')
    PRE += text.replace('@@', '\0').replace('@', o).replace('#', t or '').replace('\0', '@').replace('COND', COND[o]).replace('MONO', MONO[o])


def sort(name, cls, order, ok, mono, ps=None):
    f = '$comparison ' if ps is None else ''
    return Fn('sort_' + name, K + '::sort', params=[cls.replace(S, 'S')] if ps is None else ps, requires=['cwf ' + SX] + ok,
              ensures=['[same simplices] same_elems %s %s' % (OSX, SX), '[sorted] sorted_%s %s%s' % (order, f, SX),
                       '[faces come first] %s -> faces_first %s' % (mono % OSX, SX), '[well-formed] cwf ' + SX],
              exit=['assert { same_elems %s %s /\\ uniq %s };' % (OSX, SX, SX)])


PP = ['pwf $p1', 'pwf $p2']


def cmp(name, cls, order, req=()):
    return Fn('cmp_' + name, cls + '::operator()', requires=PP + list(req), order=order, ensures=['[order] $result <-> %s $this $p1 $p2' % order])


def star(name, cls, ext, step):
    F = '$this.%s_values' % name
    q = {'lowerstar': 'maximumValue', 'upperstar': 'minimumValue'}[name]
    v = {'lowerstar': 'maxValue', 'upperstar': 'minValue'}[name]
    R = ['ffin ' + F]
    return [Fn(name + '_new', cls + '::' + cls.split('<')[0], params=['__normal_iterator<double*, vector<double>>'] * 2,
               ensures=['[values] length $result.%s_values = $end - $begin /\\ forall k. 0 <= k < $end - $begin -> $result.%s_values[k] = $s[$begin + k]' % (name, name)]),
            Fn(name + '_value', cls + '::' + q, requires=R + ['swf $p1', 'okf %s $p1' % F], ensures=['[extremal value of the vertices] $result = %s %s (vs $p1)' % (ext, F)],
               loops=[Loop(['[extremal value so far] %s_upto %s (vs $p1) $itVertex $%s' % (ext, F, v)])]),
            cmp(name, cls, {'lowerstar': 'lower_lt', 'upperstar': 'upper_lt'}[name], R + ['okf %s $p1' % F, 'okf %s $p2' % F])]


FNS = [cmp('dataless', DL, 'data_lt'), cmp('datagreater', DG, 'data_gt')] + star('lowerstar', LS, 'vmax', 'vmax_step') + star('upperstar', US, 'vmin', 'vmin_step') + [
    sort('lex', '', 'lex_lt', [], 'true%.0s', []),
    sort('dataless', DL, 'data_lt', [], 'monotone %s'), sort('datagreater', DG, 'data_gt', [], 'antitone %s'),
    sort('lowerstar', LS, 'lower_lt', ['okc $comparison.lowerstar_values ' + SX, 'ffin $comparison.lowerstar_values'], 'true%.0s'),
    sort('upperstar', US, 'upper_lt', ['okc $comparison.upperstar_values ' + SX, 'ffin $comparison.upperstar_values'], 'true%.0s')]

UNITS = [Unit('filtration', SRC, trust(simplex_fns()) + FNS,
              classes={S: 'simplex', K: 'complex', DL: 'dataless', DG: 'datagreater', LS: 'lowerstar', US: 'upperstar'},
              prelude=SIMPLEX_PRE + MIC + IS_FACE + PRE, aliases=dict(ALIAS, **{c.replace(S, 'S'): c for c in (DL, DG, LS, US)}), adaptors={BI: (S, 'unsigned int')})]
