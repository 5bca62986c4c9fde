#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the list below.  A property
with a module contracts/<id>.py is claimed; the others need an entry in NA."""
import json, os, importlib, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
P = []


def prop(id, title, statement, over, text, tests, files, mech, state=(), observe=()):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe:
        a['observe_at'] = list(observe)
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
              'why_tests_cant': tests, 'anchors': a})


I = 'include/aleph/'
prop('C01', 'Matrix reduction is a correct persistence reduction, whatever the variant',
     'Reducing a boundary matrix leaves every column equal to the original column plus a sum of earlier original columns (mod 2), and no two non-zero columns share their largest row index. '
     'Hence the set of (largest row, column) pairs depends on the matrix alone: every reduction variant and every column storage yields the same pairs. The reduction terminates and leaves column count and column dimensions unchanged.',
     ['inputs', 'configurations'],
     'all matrices over Z/2 with row indices below the number of columns (the variant that clears columns: all boundary matrices whose columns have boundary zero), all storages (vector, list, set) and all reduction variants',
     'The tests reduce a handful of fixed triangulations; they never quantify over matrices, and a wrong column operation that keeps the few tested pivots is invisible.',
     [I + 'persistentHomology/algorithms/Standard.hh', I + 'persistentHomology/algorithms/Twist.hh', I + 'topology/BoundaryMatrix.hh'],
     [('pivot table of reduced columns', 'Standard::operator(), StandardRectangular::operator(), Twist::operator()'),
      ('clearing of columns by their pivot', 'Twist::operator()')],
     [('lut', 'for every row, the reduced column having it as largest row', I + 'persistentHomology/algorithms/Standard.hh')],
     ['BoundaryMatrix::getColumn', 'BoundaryMatrix::getMaximumIndex'])
prop('C02', 'Every column storage behaves as the same matrix over Z/2',
     'After any history of operations, each column storage reports exactly the columns an ideal Z/2 matrix would: a column read back is the ascending list of the row indices stored, adding one column to another gives their mod-2 sum and touches nothing else, and the reported largest row index exists exactly for non-zero columns and is the maximum. '
     'Column count, column dimensions, resizing, clearing and comparison agree with that ideal matrix.',
     ['inputs', 'histories'], 'all finite histories of set/add/clear/resize/dimension/read operations with in-range column numbers and distinct row indices',
     'Tests only check a few columns of small fixed matrices; sortedness and the symmetric difference must hold after every history of operations.',
     [I + 'topology/representations/Vector.hh', I + 'topology/representations/List.hh', I + 'topology/representations/Set.hh', I + 'topology/BoundaryMatrix.hh'],
     [('sorted column containers and set_symmetric_difference', 'addColumns / setColumn of the three representations'),
      ('forwarding wrapper', 'BoundaryMatrix')],
     [('_data', 'row indices per column', 'representations'), ('_dimensions', 'dimension per column', 'representations')])
prop('C03', 'The persistence pairing is exactly the pivot pairing of the reduced matrix',
     'The pairing computed from a boundary matrix lists (creator, destroyer) exactly for the non-zero columns of the reduced matrix, the creator being the largest row of the destroyer column; the zero columns that destroy nothing and are destroyed by nothing are listed as unpaired, those of the top dimension only on request. '
     'Every index occurs at most once, pairs are sorted, creator precedes destroyer, and for a dualized matrix the indices are mirrored back so that the result refers to the original filtration.',
     ['inputs', 'configurations'],
     'all boundary matrices over Z/2, primal or dualized, with and without unpaired creators, with and without a cut-off dimension',
     'Tests count points of a few diagrams; a lost, doubled or mirrored pair for other filtrations stays unseen.',
     [I + 'persistentHomology/Calculation.hh', I + 'persistentHomology/PersistencePairing.hh'],
     [('pairing from the reduced matrix', 'calculatePersistencePairing'), ('sorted list of pairs', 'PersistencePairing')],
     [('_pairs', 'pairs (creator, destroyer), destroyer maximal when unpaired', I + 'persistentHomology/PersistencePairing.hh')],
     ['calculatePersistencePairing', 'PersistencePairing::add'])
prop('C04', 'Dualizing a boundary matrix is the anti-transpose and swaps nothing else',
     'The dual of a boundary matrix with n columns has entry (n-1-j, n-1-i) exactly where the original has entry (i, j), assigns each mirrored column the complementary dimension, and is flagged as dual; the original is left as it was. '
     'Dualizing twice gives back the entries of the original matrix.',
     ['inputs', 'configurations'], 'all boundary matrices whose row indices lie below the number of columns, all column storages',
     'Tests compare the persistence of two or three triangulations in primal and dual form only.',
     [I + 'topology/BoundaryMatrix.hh'],
     [('transposition through temporary columns', 'BoundaryMatrix::dualize')], (), ['BoundaryMatrix::dualize'])
prop('C05', 'Union-find keeps the partition generated by all merges so far',
     'After any history of insertions and merges, two elements have the same representative exactly when they are connected by a chain of merges; a representative represents itself and belongs to its class; merging a class into another makes the representative of the latter the representative of both. '
     'Listing the roots and listing the members of a class give exactly the representatives and the members.',
     ['inputs', 'histories'], 'all sets of elements and all finite histories of merges, with lookups (which compress paths) interleaved anywhere',
     'Path compression changes the parent map during lookups; tests run a single short history.',
     [I + 'topology/UnionFind.hh'],
     [('parent map with path compression', 'UnionFind::find, UnionFind::merge')],
     [('_parent', 'parent of every element; roots are their own parents', I + 'topology/UnionFind.hh')],
     ['UnionFind::find', 'UnionFind::roots', 'UnionFind::get'])
prop('C06', 'A simplex is its vertex set, and its boundary is its codimension-one faces',
     'A simplex built from any vertices has exactly those vertices, once each and in descending order, whatever their order and multiplicity; equality compares vertex sets only, and the built-in order is a strict total order on vertex sets in which every proper face precedes the simplex. '
     'The boundary of a simplex with at least two vertices enumerates exactly the faces with one vertex removed, once each; vertices and the empty simplex have no boundary. The dimension is the number of vertices minus one and asking for it raises an error exactly for the empty simplex.',
     ['inputs'], 'all finite vertex lists (repeated and unordered vertices included), all weights, all pairs of simplices',
     'Tests build a few triangles and tetrahedra from sorted, distinct vertices; the boundary is produced lazily by filtering and must be right for every simplex.',
     [I + 'topology/Simplex.hh'],
     [('normalised vertex list', 'constructors of Simplex'), ('lazy boundary', 'Simplex::boundary_iterator::dereference'), ('vertex set comparison', 'Simplex::operator==, operator<')],
     [('_vertices', 'vertices in strictly descending order', I + 'topology/Simplex.hh')],
     ['Simplex::begin_boundary', 'Simplex::begin'])
prop('C07', 'A simplicial complex holds each simplex once and answers queries consistently',
     'After any history of insertions, removals, reorderings and replacements, a complex holds every vertex set at most once, in the order given by the history; lookup, position, subscript, dimension, vertex set, listing by dimension and comparison all agree with that list. '
     'Completing a complex adds exactly the missing faces at the end, each with the weight of a coface; removing a simplex with validation removes exactly those simplices that can no longer have all their faces, and keeps the order of the rest.',
     ['inputs', 'histories'], 'all finite histories of operations on complexes of any size and dimension',
     'Three indices (order, vertex set, dimension) have to stay consistent under modification during iteration; tests run single short histories.',
     [I + 'topology/SimplicialComplex.hh'],
     [('multi-index container', 'SimplicialComplex::find, index, range, vertices'), ('completion', 'SimplicialComplex::createMissingFaces'), ('cascading removal', 'SimplicialComplex::remove')],
     [('_simplices', 'simplices in filtration order, unique by vertices', I + 'topology/SimplicialComplex.hh')],
     ['SimplicialComplex::begin', 'SimplicialComplex::find', 'SimplicialComplex::contains'])

prop('C08', 'Sorting a complex gives a filtration: faces precede their cofaces',
     'Sorting a complex by the library orders (built-in order, increasing or decreasing weight, lower-star or upper-star values of the vertices) only rearranges its simplices and leaves them in that order, with ties broken by a fixed rule so that the result depends on the set of simplices alone. '
     'Whenever the weights of faces never exceed (for decreasing orders: never fall below) those of their cofaces, every face precedes its cofaces afterwards; for star filtrations this holds for all vertex values.',
     ['inputs', 'configurations'], 'all complexes, all weights and vertex values, all library orders',
     'The order must be a strict weak order and compatible with faces for every combination of ties; tests sort a few complexes with distinct weights.',
     [I + 'topology/filtrations/Data.hh', I + 'topology/filtrations/LowerStar.hh', I + 'topology/filtrations/UpperStar.hh', I + 'topology/SimplicialComplex.hh'],
     [('comparison by weight, dimension, vertices', 'Data::operator(), LowerStar::operator(), UpperStar::operator()'), ('rearrangement of the complex', 'SimplicialComplex::sort')],
     (), ['SimplicialComplex::begin'])
prop('C09', 'Weights propagated to higher simplices are the extrema over their faces',
     'Recalculating weights assigns every simplex of dimension at least one the maximum (or minimum, on request) of the weights of its faces present in the complex, applied from low to high dimension, and leaves vertices, the order and the simplices themselves as they were; optionally, edges keep their weights too. '
     'Recalculation from vertex values assigns each vertex its value and every other simplex the maximum over its vertices; a vertex without a value is reported as an error. Afterwards no face has a larger weight than its coface (for maxima).',
     ['inputs'], 'all complexes in any order (missing faces included), all weights and vertex values',
     'Processing order by dimension and the modification of weights during iteration matter only for complexes whose storage order differs from the dimension order.',
     [I + 'topology/SimplicialComplex.hh'],
     [('propagation by dimension', 'SimplicialComplex::recalculateWeights')],
     [('_simplices', 'weights of the simplices', I + 'topology/SimplicialComplex.hh')], ['Simplex::data'])
prop('C10', 'The boundary matrix of a complex has exactly the faces of each simplex',
     'The boundary matrix made from a complex has one column per simplex in the order of the complex, holding exactly the positions of its codimension-one faces, and the dimension of the simplex; it is not marked as dual. '
     'With a cut-off, columns from that position on are empty but keep their dimension. For a complex closed under faces, the boundary of every boundary is zero.',
     ['inputs', 'configurations'], 'all complexes closed under faces, in any order, with any vertex numbering; all cut-off positions; all storages (proof for the vector storage, bounded search for the others)',
     'Tests convert a few fixed triangulations; positions of faces depend on the order of arbitrary complexes.',
     [I + 'topology/Conversions.hh'], [('position of every simplex', 'makeBoundaryMatrix')], (), ['BoundaryMatrix::getColumn', 'BoundaryMatrix::getDimension'])
prop('C11', 'Zero-dimensional persistence follows the elder rule',
     'For any graph given with its simplices in filtration order, the zero-dimensional diagram pairs, at every edge that joins two different components, the younger component (the one whose oldest vertex comes later) with that edge, and lists one point that never dies for each component that remains, its creation being the weight of the oldest vertex of that component. '
     'Edges inside a component create nothing; the accompanying pairing names the same creators and destroyers by position.',
     ['inputs'], 'all one-skeleta in filtration order with any vertex numbering, any weights and ties, any number of components',
     'Which of two components survives depends on the whole merge history; a wrong choice shows only for graphs in which components of different ages merge in a particular order.',
     [I + 'persistentHomology/ConnectedComponents.hh', I + 'topology/UnionFind.hh'],
     [('merging of components by age', 'calculateZeroDimensionalPersistenceDiagram')],
     [('union-find over the vertices', 'the root of a component is its oldest vertex', I + 'persistentHomology/ConnectedComponents.hh')],
     ['calculateZeroDimensionalPersistenceDiagram'])
prop('C12', 'Persistence diagrams list the weights of all pairs, by dimension',
     'The diagrams made from a pairing are in ascending dimension, one for each dimension that has a creator; each lists, in the order of the pairing, the weight of the creator and the weight of the destroyer for the pairs of that dimension, unpaired creators being points that never die. '
     'Adding points, merging, counting unpaired points, comparing, and removing diagonal points, unpaired points or duplicates do exactly that to the list of points and keep the order of what remains (duplicates excepted) and the dimension.',
     ['inputs', 'histories'], 'all pairings of the simplices of a complex or of the values of a function, all finite histories of diagram operations',
     'A point attributed to the wrong dimension, or lost for ties of weights, needs specific pairings; tests look at sizes of a few diagrams.',
     [I + 'persistenceDiagrams/PersistenceDiagram.hh', I + 'persistenceDiagrams/Calculation.hh', I + 'persistentHomology/Calculation.hh'],
     [('grouping of pairs by dimension', 'makePersistenceDiagrams'), ('erase-remove idiom', 'PersistenceDiagram::removeDiagonal, removeUnpaired')],
     [('_points', 'points of the diagram in order of insertion', I + 'persistenceDiagrams/PersistenceDiagram.hh')],
     ['PersistenceDiagram::begin', 'makePersistenceDiagrams', 'calculatePersistenceDiagrams'])

prop('C13', 'Summary numbers and distances of diagrams equal their definitions',
     'The distance of two points of a diagram is the larger coordinate difference (infinite coordinates that agree count as equal), the distance to the diagonal is half the persistence, the Hausdorff distance of two diagrams is the largest distance of any point to its nearest point in the other diagram, and the nearest-neighbour distance is the sum over its definition. '
     'Total persistence, the p-norm and the infinity norm of a diagram are the sum of powers of the persistences, its root and the largest persistence; compensated summation returns the sum of its summands, also if it is scaled in between (all in exact arithmetic).',
     ['inputs'], 'all diagrams (empty ones where defined), all points, all exponents; arithmetic of reals, rounding excluded',
     'Directed and undirected variants agree on symmetric examples, and compensation terms vanish on small ones; tests use a handful of points.',
     [I + 'persistenceDiagrams/distances/Hausdorff.hh', I + 'persistenceDiagrams/distances/NearestNeighbour.hh', I + 'geometry/distances/Infinity.hh', I + 'persistenceDiagrams/Norms.hh', I + 'math/KahanSummation.hh'],
     [('nearest points', 'hausdorffDistance, nearestNeighbourDistance'), ('sum of powers', 'totalPersistence'), ('compensated sum', 'KahanSummation::operator+=, accumulate_kahan')],
     (), ['hausdorffDistance', 'totalPersistence', 'infinityNorm', 'accumulate_kahan'])
prop('C14', 'Skeletons, filters, cones, components and Euler numbers match definitions',
     'The skeleton and the filter of a complex hold exactly the simplices of at most the given dimension, respectively the chosen ones, in their order; cone and suspension keep the complex and add one, respectively two, new vertices together with the join of each of them with every simplex, weighted as asked. '
     'Two vertices are in the same connected component exactly if a path of edges joins them, and the intersection of two simplices consists of their common vertices. '
     'The Euler number of a complex is the alternating count of its simplices and that of a sequence of diagrams the alternating sum of their Betti numbers, including the highest dimension.',
     ['inputs', 'configurations'], 'all complexes containing the vertices of their simplices, with any order of simplices and vertex numbers below the largest representable ones; all dimensions, choices and weights; all sequences of diagrams',
     'Tests build each derived complex once from a small example and check its size; a missing dimension cancels out or vanishes in such examples.',
     [I + 'topology/Skeleton.hh', I + 'topology/Filter.hh', I + 'topology/QuotientSpaces.hh', I + 'topology/ConnectedComponents.hh', I + 'topology/Intersections.hh', I + 'persistentHomology/EulerCharacteristic.hh'],
     [('selection of simplices', 'Skeleton::operator(), Filter::operator()'), ('new vertex above all others, joined with every simplex', 'cone, suspension'), ('merging along edges', 'calculateConnectedComponents'), ('common vertices', 'intersect, sizeOfIntersection'), ('alternating sums', 'eulerCharacteristic')],
     (), ['Skeleton::operator()', 'Filter::operator()', 'cone', 'suspension', 'calculateConnectedComponents', 'eulerCharacteristic'])
prop('C15', 'Expanding a graph gives its cliques, weighted by their largest face',
     'Expanding a graph up to a dimension yields exactly the cliques of at most that dimension, each once, vertices and edges keeping their weights. '
     'Assigning weights afterwards keeps the simplices and gives every simplex above the chosen dimension the largest weight of its faces (never less than its own), respectively the largest value among its vertices.',
     ['inputs', 'configurations'], 'all graphs with any vertex numbering and order of simplices, all weights and vertex values, all dimensions',
     'A missed or repeated clique needs a particular arrangement of neighbourhoods; tests expand a few complete graphs.',
     [I + 'geometry/RipsExpander.hh', I + 'geometry/RipsExpanderTopDown.hh', I + 'geometry/VietorisRipsComplex.hh'],
     [('inductive expansion over lower neighbours', 'RipsExpander::operator(), addCofaces, getLowerNeighbours, intersect'), ('weights from faces', 'RipsExpander::assignMaximumWeight, assignMaximumData')],
     (), ['RipsExpander::operator()', 'buildVietorisRipsComplex'])
prop('C16', 'Maximal clique enumeration lists every maximal clique exactly once',
     'For the graph formed by the edges of a complex, each enumeration algorithm returns exactly the maximal cliques, every one once, given by the vertices of the complex. '
     'The adjacency structure they use holds an edge between two vertices exactly when the complex does, whatever the numbers of the vertices.',
     ['inputs', 'configurations'], 'all complexes containing the vertices of their simplices, with any vertex numbers, any order of simplices, any traversal order of hashed sets, fewer than 2^32 vertices; both algorithms',
     'A lost or repeated clique depends on the interplay of pivot choice, candidate order and excluded vertices; tests use two small graphs with consecutive vertex numbers.',
     [I + 'topology/MaximalCliques.hh', I + 'math/SparseMatrix.hh', I + 'utilities/UnorderedSetOperations.hh'],
     [('recursion over candidates and excluded vertices', 'enumerateKoch, enumerateBronKerbosch'), ('vertex numbering and adjacency', 'adjacencyMatrix, SparseBinaryMatrix'), ('intersection of hashed sets', 'set_intersection')],
     (), ['maximalCliquesKoch', 'maximalCliquesBronKerbosch'])
prop('C17', 'Vietoris-Rips complexes hold exactly the point sets of small diameter',
     'A radius search lists for every point exactly the points nearer than the radius, each once and with its distance, itself included for positive radii. '
     'The Vietoris-Rips complex of a set of points for a radius and dimension contains, each once, exactly the sets of at most that many plus one points whose pairwise distances are below the radius; its weights are the diameters (zero for points) or, if values are given, the largest value of a vertex. '
     'Simplices come in ascending order of weight, every face before its cofaces.',
     ['inputs', 'configurations'], 'all point clouds with coinciding or equidistant points, all symmetric distance functions with non-negative values, all radii, dimensions and vertex values',
     'Ties of distances with the radius and among weights, and the interplay of search, expansion, weights and order, cannot be covered by the few clouds of the tests, which check counts only.',
     [I + 'geometry/VietorisRipsComplex.hh', I + 'geometry/RipsSkeleton.hh', I + 'geometry/BruteForce.hh', I + 'geometry/RipsExpander.hh', I + 'topology/filtrations/Data.hh'],
     [('search over all pairs', 'BruteForce::radiusSearch'), ('edges from the search', 'RipsSkeleton::operator()'), ('expansion, weights and order', 'buildVietorisRipsComplex')],
     (), ['BruteForce::radiusSearch', 'buildVietorisRipsComplex'])
prop('C18', 'Diagrams of a filtered complex do not depend on how they are computed',
     'For a complex in which every face precedes its cofaces, the persistence diagrams hold for each dimension exactly one point per pair of creator and destroyer, given by the two weights, and one never destroyed point per unpaired creator, where unpaired creators of the largest dimension are left out unless asked for. '
     'The algorithm that reduces the boundary matrix, the storage of its columns and whether the matrix is dualized first change neither the points nor their order. '
     'The same holds for the diagram of a boundary matrix and function values.',
     ['inputs', 'configurations'], 'all complexes and boundary matrices of any size with arbitrary weights, all reduction algorithms, column storages, primal and dual calculation, with and without unpaired creators of the largest dimension',
     'That a matrix and its anti-transpose have the same pairs is a theorem about all matrices; examples compare single cases and cannot tell a calculation that agrees on them from one that always agrees.',
     [I + 'persistentHomology/Calculation.hh', I + 'persistenceDiagrams/Calculation.hh', I + 'topology/BoundaryMatrix.hh', I + 'topology/Conversions.hh'],
     [('matrix, dual, pairing, diagrams', 'calculatePersistenceDiagrams'), ('pairing and values', 'calculatePersistenceDiagram')],
     (), ['calculatePersistenceDiagrams', 'calculatePersistenceDiagram'])

NA = {}
TECH = 'contract-based deductive verification of the extracted code (clang AST -> WhyML -> Why3 VCs -> Z3/cvc5/E)'
NOTE = ('Every obligation generated from the current source of the functions under contract is discharged by Why3 back ends on each '
        'run, unbounded; a bounded search on the compiled headers runs beside it to find failing inputs and is not counted as proof. '
        'Trusted: clang AST, the translation, the C++ library model in theory/cxx.mlw (listed in the evidence), the solvers.')


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps(p) + '\n')
    checks, na = [], []
    for p in P:
        i = p['id']
        if os.path.exists(os.path.join(ROOT, 'contracts', i.lower() + '.py')):
            m = importlib.import_module('contracts.' + i.lower())
            checks.append({'property': i, 'quick_cmd': 'python3 -m cxx2why.run ' + i,
                           'thorough_cmd': 'python3 -m cxx2why.run %s --thorough' % i,
                           'technique': getattr(m, 'TECHNIQUE', TECH), 'level': getattr(m, 'LEVEL', 'proof'),
                           'level_note': getattr(m, 'NOTE', NOTE)})
        else:
            na.append({'property': i, 'reason': NA[i]})
    man = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': na,
           'hooks': {'guard': 'none', 'enable': 'no hooks: the checks read the unmodified sources', 'source_commits': []},
           'notes': 'Known findings are in KNOWN_FINDINGS.txt.'}
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


main()
