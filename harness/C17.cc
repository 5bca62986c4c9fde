// Neighbour search and Vietoris--Rips complexes of random point clouds,
// against an enumeration of all point subsets.
#include "common.hh"
#include <aleph/containers/PointCloud.hh>
#include <aleph/geometry/BruteForce.hh>
#include <aleph/geometry/RipsSkeleton.hh>
#include <aleph/geometry/VietorisRipsComplex.hh>
#include <aleph/geometry/distances/Euclidean.hh>
#include <aleph/geometry/distances/Manhattan.hh>
#include <list>
#include <random>

using namespace verif;
using Cloud = aleph::containers::PointCloud<double>;
using VS = std::vector<std::size_t>;   // ascending

template <class S> static VS key( const S& s )
{
  VS r( s.begin(), s.end() );
  std::sort( r.begin(), r.end() );
  return r;
}

static std::string show( const VS& v )
{
  std::string r = "{";
  for( auto x : v )
    r += std::to_string( x ) + ",";
  return r + "}";
}

struct L2
{
  using Distance = aleph::geometry::distances::Euclidean<double>;
  static const char* name() { return "Euclidean"; }
  static double of( const std::vector<double>& a, const std::vector<double>& b )
  {
    double r = 0;
    for( std::size_t i = 0; i < a.size(); i++ )
      r = r + ( a[i] - b[i] ) * ( a[i] - b[i] );
    return std::sqrt( r );
  }
};

struct L1
{
  using Distance = aleph::geometry::distances::Manhattan<double>;
  static const char* name() { return "Manhattan"; }
  static double of( const std::vector<double>& a, const std::vector<double>& b )
  {
    double r = 0;
    for( std::size_t i = 0; i < a.size(); i++ )
      r += std::abs( a[i] - b[i] );
    return r;
  }
};

// A neighbour search that lists the neighbours in another order
template <class NN> struct Shuffled
{
  using IndexType = typename NN::IndexType;
  using ElementType = typename NN::ElementType;
  Shuffled( const NN& n, unsigned s ) : nn( n ), seed( s ) {}
  void radiusSearch( ElementType r, std::vector<std::vector<IndexType>>& I, std::vector<std::vector<ElementType>>& D ) const
  {
    nn.radiusSearch( r, I, D );
    for( std::size_t i = 0; i < I.size(); i++ )
    {
      std::mt19937 a( seed ), b( seed );
      std::shuffle( I[i].begin(), I[i].end(), a );
      std::shuffle( D[i].begin(), D[i].end(), b );
    }
  }
  std::size_t size() const { return nn.size(); }
  const NN& nn;
  unsigned seed;
};

template <class M> static void cloud( Context& c )
{
  std::size_t n = std::size_t( c.uniform( 1, c.coin( 0.1 ) ? 14 : 7 ) ), d = std::size_t( c.uniform( 1, 9 ) );
  int range = c.uniform( 1, 6 );
  bool grid = c.coin();
  std::vector<std::vector<double>> P( n, std::vector<double>( d ) );
  Cloud cl( n, d );
  std::ostringstream o;
  o.precision( 17 );
  o << M::name() << " points";
  for( std::size_t i = 0; i < n; i++ )
  {
    for( auto& x : P[i] )
      x = grid ? c.uniform( -range, range ) : c.real( -range, range );
    if( i > 0 && c.coin( 0.1 ) )
      P[i] = P[ std::size_t( c.uniform( 0, int( i ) - 1 ) ) ];
    cl.set( i, P[i].begin(), P[i].end() );
    o << " (";
    for( auto x : P[i] )
      o << x << " ";
    o << ")";
  }
  std::vector<std::vector<double>> D( n, std::vector<double>( n ) );
  std::vector<double> all;
  for( std::size_t i = 0; i < n; i++ )
    for( std::size_t j = 0; j < n; j++ )
      all.push_back( D[i][j] = M::of( P[i], P[j] ) );
  double eps = grid && c.coin( 0.5 ) ? all[ std::size_t( c.uniform( 0, int( all.size() ) - 1 ) ) ] : c.real( 0, 4 * range * std::sqrt( double( d ) ) );
  if( grid && c.coin( 0.05 ) )
    eps = 0;
  // distances this close to the radius depend on rounding
  if( !grid )
    for( auto x : all )
      if( std::abs( x - eps ) < 1e-9 )
        return;
  unsigned dim = unsigned( c.uniform( 0, n > 8 ? 3 : 8 ) );
  o << " radius " << eps << " dimension " << dim;
  c.begin( o.str() );

  using BF = aleph::geometry::BruteForce<Cloud, typename M::Distance>;
  using NN = Shuffled<BF>;
  BF bf( cl );
  NN nn( bf, unsigned( c.uniform( 0, 1000 ) ) );
  std::vector<std::vector<std::size_t>> idx( 3, std::vector<std::size_t>( 2, 1 ) );
  std::vector<std::vector<double>> dst( 1, std::vector<double>( 4, 1.0 ) );
  bf.radiusSearch( eps, idx, dst );
  c.check( idx.size() == n && dst.size() == n, "radius-size", "one list per point" );
  for( std::size_t i = 0; i < n && i < idx.size(); i++ )
  {
    VS want;
    std::vector<double> wd;
    for( std::size_t j = 0; j < n; j++ )
      if( D[i][j] < eps )
        want.push_back( j ), wd.push_back( D[i][j] );
    std::map<std::size_t, double> got;
    for( std::size_t k = 0; k < idx[i].size() && k < dst[i].size(); k++ )
      got[ idx[i][k] ] = dst[i][k];
    c.check( idx[i].size() == want.size() && dst[i].size() == want.size() && got.size() == want.size(), "radius-count", "neighbours of " + std::to_string( i ) );
    for( std::size_t k = 0; k < want.size(); k++ )
    {
      auto it = got.find( want[k] );
      c.check( it != got.end() && std::abs( it->second - wd[k] ) < 1e-9, "radius-neighbour", "neighbour " + std::to_string( want[k] ) + " of " + std::to_string( i ) );
    }
  }

  auto skel = aleph::geometry::RipsSkeleton<NN>()( nn, eps );
  std::map<VS, double> w;
  for( std::size_t i = 0; i < n; i++ )
  {
    w[ VS{ i } ] = 0;
    for( std::size_t j = i + 1; j < n; j++ )
      if( D[i][j] < eps )
        w[ VS{ i, j } ] = D[i][j];
  }
  c.check( skel.size() == w.size(), "skeleton-size", "number of simplices of the skeleton" );
  for( auto&& s : skel )
  {
    auto it = w.find( key( s ) );
    c.check( it != w.end(), "skeleton-extra", "unexpected " + show( key( s ) ) );
    if( it != w.end() )
      c.check( std::abs( it->second - s.data() ) < 1e-9, "skeleton-weight", "weight of " + show( key( s ) ) );
  }

  // all subsets of small diameter with at most dim+1 points
  std::map<VS, double> rips;
  for( unsigned m = 1; m < ( 1u << n ); m++ )
  {
    if( unsigned( __builtin_popcount( m ) ) > dim + 1 )
      continue;
    VS v;
    for( std::size_t i = 0; i < n; i++ )
      if( m >> i & 1 )
        v.push_back( i );
    double diam = 0;
    bool ok = true;
    for( auto i : v )
      for( auto j : v )
        if( i < j )
          ok = ok && D[i][j] < eps, diam = std::max( diam, D[i][j] );
    if( ok )
      rips[v] = diam;
  }
  std::list<double> values;
  std::vector<double> val;
  for( std::size_t i = 0; i < n; i++ )
    val.push_back( c.uniform( -3, 3 ) );
  values.assign( val.begin(), val.end() );
  for( int which = 0; which < 3; which++ )
  {
    auto K = which == 0 ? aleph::geometry::buildVietorisRipsComplex( nn, eps, dim )
           : which == 1 ? aleph::geometry::buildVietorisRipsComplex( nn, eps, dim, val.begin(), val.end() )
                        : aleph::geometry::buildVietorisRipsComplex( nn, eps, dim, values.begin(), values.end() );
    std::string tag = which == 0 ? "rips" : "values";
    std::map<VS, double> got;
    std::set<VS> seen;
    double last = std::numeric_limits<double>::lowest();
    for( auto&& s : K )
    {
      VS v = key( s );
      c.check( seen.insert( v ).second, tag + "-repeated", show( v ) );
      auto it = rips.find( v );
      c.check( it != rips.end(), tag + "-extra", "unexpected " + show( v ) );
      if( it == rips.end() )
        continue;
      double want = it->second;
      if( which > 0 )
      {
        want = val[ v[0] ];
        for( auto u : v )
          want = std::max( want, val[u] );
      }
      c.check( std::abs( s.data() - want ) < 1e-9, tag + "-weight", "weight of " + show( v ) + ": " + std::to_string( s.data() ) + " for " + std::to_string( want ) );
      c.check( s.data() >= last, tag + "-order", "weights decrease at " + show( v ) );
      last = s.data();
      for( std::size_t i = 0; i < v.size() && v.size() > 1; i++ )
      {
        VS f = v;
        f.erase( f.begin() + std::ptrdiff_t( i ) );
        c.check( seen.count( f ) == 1, tag + "-face-order", "face " + show( f ) + " not before " + show( v ) );
      }
    }
    c.check( seen.size() == rips.size(), tag + "-missing", std::to_string( seen.size() ) + " simplices for " + std::to_string( rips.size() ) );
  }
}

int main( int argc, char** argv )
{
  Context c;
  c.parse( argc, argv );
  while( c.more() )
    if( c.coin() )
      cloud<L2>( c );
    else
      cloud<L1>( c );
  return c.finish();
}
