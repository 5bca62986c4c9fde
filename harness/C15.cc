// Clique complexes of graphs, against an enumeration of all vertex subsets.
#include "common.hh"
#include <aleph/containers/PointCloud.hh>
#include <aleph/geometry/BruteForce.hh>
#include <aleph/geometry/RipsExpander.hh>
#include <aleph/geometry/RipsExpanderTopDown.hh>
#include <aleph/geometry/RipsSkeleton.hh>
#include <aleph/geometry/VietorisRipsComplex.hh>
#include <aleph/geometry/distances/Euclidean.hh>
#include <aleph/topology/Simplex.hh>
#include <aleph/topology/SimplicialComplex.hh>

using namespace verif;
using Simplex = aleph::topology::Simplex<double, unsigned>;
using Complex = aleph::topology::SimplicialComplex<Simplex>;
using VS = std::vector<unsigned>;   // ascending

template <class S> static VS key( const S& s )
{
  VS r;
  for( auto&& v : s )
    r.push_back( static_cast<unsigned>( v ) );
  std::sort( r.begin(), r.end() );
  return r;
}

static std::string show( const VS& v )
{
  std::string r = "{";
  for( auto x : v )
    r += std::to_string( x ) + ",";
  return r + "}";
}

// all cliques with at most d+1 vertices
static void cliques( const VS& vertices, const std::set<VS>& edges, unsigned d, std::size_t from, VS& cur, std::set<VS>& out )
{
  if( !cur.empty() )
    out.insert( cur );
  if( cur.size() == d + 1 )
    return;
  for( std::size_t i = from; i < vertices.size(); i++ )
  {
    bool ok = true;
    for( auto u : cur )
      ok = ok && edges.count( VS{ u, vertices[i] } );
    if( !ok )
      continue;
    cur.push_back( vertices[i] );
    cliques( vertices, edges, d, i + 1, cur, out );
    cur.pop_back();
  }
}

static double weightOf( const VS& v, const std::map<VS, double>& w )
{
  double r = v.size() == 1 ? w.at( v ) : std::numeric_limits<double>::lowest();
  for( std::size_t i = 0; i < v.size(); i++ )
    for( std::size_t j = i + 1; j < v.size(); j++ )
      r = std::max( r, w.at( VS{ v[i], v[j] } ) );
  return r;
}

static void graph( Context& c )
{
  int n = c.uniform( 0, 8 );
  std::set<unsigned> labels;
  unsigned top = c.coin() ? unsigned( n ) : 30u;
  while( int( labels.size() ) < n )
    labels.insert( unsigned( c.uniform( 0, int( top ) ) ) );
  VS vertices( labels.begin(), labels.end() );
  double p = c.real( 0, 1 );
  std::vector<Simplex> simplices;
  std::set<VS> edges;
  std::map<VS, double> w;
  std::ostringstream o;
  for( auto v : vertices )
  {
    double x = c.coin( 0.7 ) ? 0 : c.uniform( -3, 3 );
    w[ VS{ v } ] = x;
    simplices.push_back( Simplex( v, x ) );
  }
  for( std::size_t i = 0; i < vertices.size(); i++ )
    for( std::size_t j = i + 1; j < vertices.size(); j++ )
      if( c.coin( p ) )
      {
        double x = c.coin( 0.8 ) ? c.uniform( 0, 5 ) : c.uniform( -5, 0 );
        VS e{ vertices[i], vertices[j] };
        edges.insert( e );
        w[e] = x;
        simplices.push_back( Simplex( { vertices[i], vertices[j] }, x ) );
      }
  if( c.coin( 0.4 ) )
    std::shuffle( simplices.begin(), simplices.end(), c.rng );
  unsigned d = unsigned( c.uniform( 0, 5 ) );
  o << "dimension " << d << ", graph";
  for( auto&& s : simplices )
    o << " " << show( key( s ) ) << "=" << s.data();
  c.begin( o.str() );
  Complex K( simplices.begin(), simplices.end() );
  std::set<VS> expected;
  VS cur;
  cliques( vertices, edges, d, 0, cur, expected );
  aleph::geometry::RipsExpander<Complex> expander;
  Complex L = expander( K, d );
  std::set<VS> got;
  for( auto&& s : L )
    got.insert( key( s ) );
  c.check( got == expected && L.size() == expected.size(), "expansion differs from the set of cliques", o.str() );
  bool weights = true;
  for( auto&& s : L )
    if( s.size() <= 2 )
      weights = weights && s.data() == w.at( key( s ) );
  c.check( weights, "expansion changes the weight of a vertex or edge", o.str() );
  unsigned m = c.coin( 0.7 ) ? 1u : unsigned( c.uniform( 0, 3 ) );
  Complex W = expander.assignMaximumWeight( L, m );
  std::map<VS, double> before, after;
  for( auto&& s : L )
    before[ key( s ) ] = s.data();
  std::size_t last = 0;
  bool sorted = true;
  for( auto&& s : W )
  {
    after[ key( s ) ] = s.data();
    sorted = sorted && s.dimension() >= last;
    last = s.dimension();
  }
  bool ok = W.size() == L.size() && after.size() == before.size();
  for( auto&& x : before )
  {
    if( !ok || !after.count( x.first ) )
    {
      ok = false;
      break;
    }
    double e = x.second;
    if( x.first.size() > m + 1 )
      for( std::size_t i = 0; i < x.first.size() && x.first.size() > 1; i++ )
      {
        VS f = x.first;
        f.erase( f.begin() + long( i ) );
        if( after.count( f ) )
          e = std::max( e, after[f] );
      }
    ok = ok && after[x.first] == e;
  }
  c.check( ok && sorted, "weights assigned from faces", o.str() + " minimum dimension " + std::to_string( m ) );
  if( m == 1 && ok )
  {
    bool diam = true;
    for( auto&& s : W )
      if( s.size() >= 2 )
      {
        double e = weightOf( key( s ), w );
        diam = diam && s.data() == ( s.size() == 2 ? e : std::max( 0.0, e ) );
      }
    c.check( diam, "weight of a simplex differs from its largest edge weight", o.str() );
  }
  std::vector<double> f;
  for( std::size_t i = 0; i < vertices.size(); i++ )
    f.push_back( c.coin( 0.7 ) ? c.uniform( -4, 4 ) : c.real( -10, 10 ) );
  Complex F = expander.assignMaximumData( L, f.begin(), f.end() );
  ok = F.size() == L.size();
  auto a = L.begin();
  for( auto b = F.begin(); ok && b != F.end(); ++b, ++a )
  {
    double e = std::numeric_limits<double>::lowest();
    for( auto v : key( *b ) )
      e = std::max( e, f[ std::size_t( std::lower_bound( vertices.begin(), vertices.end(), v ) - vertices.begin() ) ] );
    ok = *a == *b && b->data() == e;
  }
  c.check( ok, "weights assigned from vertex values", o.str() );
  if( !vertices.empty() )
  {
    aleph::geometry::RipsExpanderTopDown<Complex> topDown;
    Complex T = topDown( K, d );
    std::set<VS> tset;
    for( auto&& s : T )
      tset.insert( key( s ) );
    c.check( tset == expected && T.size() == expected.size(), "top-down expansion differs from the set of cliques", o.str() );
  }
}

static void cloud( Context& c )
{
  int n = c.uniform( 1, 7 ), D = c.uniform( 1, 3 );
  std::vector< std::vector<double> > x;
  aleph::containers::PointCloud<double> P{ std::size_t( n ), std::size_t( D ) };
  std::ostringstream o;
  o.precision( 17 );
  for( int i = 0; i < n; i++ )
  {
    std::vector<double> p;
    for( int j = 0; j < D; j++ )
      p.push_back( c.real( 0, 1 ) );
    P.set( std::size_t( i ), p.begin(), p.end() );
    x.push_back( p );
    for( auto y : p ) o << y << " ";
    o << "; ";
  }
  double eps = c.real( 0, 1.5 );
  unsigned d = unsigned( c.uniform( 0, 4 ) );
  o << "radius " << eps << " dimension " << d;
  c.begin( o.str() );
  std::set<VS> edges;
  std::map<VS, double> w;
  VS vertices;
  for( unsigned i = 0; i < unsigned( n ); i++ )
  {
    vertices.push_back( i );
    w[ VS{ i } ] = 0;
    for( unsigned j = i + 1; j < unsigned( n ); j++ )
    {
      double s = 0;
      for( int k = 0; k < D; k++ )
        s += ( x[i][std::size_t( k )] - x[j][std::size_t( k )] ) * ( x[i][std::size_t( k )] - x[j][std::size_t( k )] );
      s = std::sqrt( s );
      w[ VS{ i, j } ] = s;
      if( std::fabs( s - eps ) < 1e-9 )
        return;
      if( s < eps )
        edges.insert( VS{ i, j } );
    }
  }
  std::set<VS> expected;
  VS cur;
  cliques( vertices, edges, d, 0, cur, expected );
  using Dist = aleph::geometry::distances::Euclidean<double>;
  using NN   = aleph::geometry::BruteForce< aleph::containers::PointCloud<double>, Dist >;
  auto K = aleph::geometry::buildVietorisRipsComplex( NN( P ), eps, d );
  std::set<VS> got;
  bool ok = true, mono = true;
  double last = -1;
  std::set<VS> seen;
  for( auto&& s : K )
  {
    VS k = key( s );
    got.insert( k );
    ok = ok && ( k.size() < 2 ? s.data() == 0 : expected.count( k ) && std::fabs( s.data() - weightOf( k, w ) ) < 1e-9 );
    mono = mono && s.data() >= last;
    last = s.data();
    for( std::size_t i = 0; i < k.size() && k.size() > 1; i++ )
    {
      VS f = k;
      f.erase( f.begin() + long( i ) );
      mono = mono && seen.count( f );
    }
    seen.insert( k );
  }
  c.check( got == expected && K.size() == expected.size(), "Vietoris-Rips complex has wrong simplices", o.str() );
  c.check( ok, "Vietoris-Rips complex has a wrong weight", o.str() );
  c.check( mono, "Vietoris-Rips complex is not a filtration", o.str() );
  std::vector<double> f;
  for( int i = 0; i < n; i++ )
    f.push_back( c.uniform( -3, 3 ) );
  auto F = aleph::geometry::buildVietorisRipsComplex( NN( P ), eps, d, f.begin(), f.end() );
  got.clear();
  ok = true;
  for( auto&& s : F )
  {
    got.insert( key( s ) );
    double e = -100;
    for( auto v : key( s ) )
      e = std::max( e, f[v] );
    ok = ok && s.data() == e;
  }
  c.check( got == expected && ok, "Vietoris-Rips complex with vertex values", o.str() );
}

int main( int argc, char** argv )
{
  Context c;
  c.parse( argc, argv );
  while( c.more() )
  {
    graph( c );
    if( c.coin( 0.3 ) )
      cloud( c );
  }
  return c.finish();
}
