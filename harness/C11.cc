// Zero-dimensional persistence against matrix reduction and the elder rule.
#include "common.hh"
#include <aleph/persistentHomology/ConnectedComponents.hh>
#include <aleph/topology/Simplex.hh>
#include <aleph/topology/SimplicialComplex.hh>

using namespace verif;

using S  = aleph::topology::Simplex<double, unsigned>;
using K  = aleph::topology::SimplicialComplex<S>;
using PP = aleph::PersistencePairing<unsigned>;
using P  = std::pair<double, double>;

// records what the calculation reports
struct Recorder
{
  std::vector<unsigned> initialized;
  std::vector< std::pair<unsigned, unsigned> > merged;
  std::vector< std::pair<double, double> > values;
  std::map<unsigned, double> roots;
  void initialize( unsigned v ) { initialized.push_back( v ); }
  void operator()( unsigned y, unsigned o, double c, double d, unsigned, unsigned ) { merged.push_back( std::make_pair( y, o ) ); values.push_back( std::make_pair( c, d ) ); }
  void operator()( unsigned r, double c ) { roots[r] = c; }
};

static std::string show( const std::vector<P>& p )
{
  std::ostringstream o;
  for( auto&& x : p )
    o << "(" << x.first << "," << x.second << ")";
  return o.str();
}

template <class CT, class ET> static void run( Context& c, const K& k, std::vector<P> points, std::set< std::pair<unsigned, unsigned> > pairs, bool pairing, const std::string& log )
{
  auto t = aleph::calculateZeroDimensionalPersistenceDiagram<S, CT, ET>( k );
  std::vector<P> got;
  for( auto&& p : std::get<0>( t ) )
    got.push_back( std::make_pair( p.x(), p.y() ) );
  std::sort( got.begin(), got.end() );
  std::sort( points.begin(), points.end() );
  c.check( got == points, "points", log + " gives " + show( got ) + " instead of " + show( points ) );
  c.check( std::get<0>( t ).dimension() == 0, "dimension", log );
  std::set< std::pair<unsigned, unsigned> > q;
  std::size_t n = 0;
  for( auto&& p : std::get<1>( t ) )
    q.insert( std::make_pair( p.first, p.second ) ), ++n;
  c.check( pairing ? q == pairs && n == q.size() : q.empty(), "pairing", log );
}

static void one( Context& c )
{
  bool large = c.coin( 0.2 );
  auto C = randomFiltration( c, randomComplex( c, large ? 14 : 6, large ? 16 : 8, c.coin( 0.7 ) ? 2 : 4 ) );
  unsigned mul = c.coin( 0.3 ) ? unsigned( c.uniform( 2, 1000 ) ) : 1;
  for( auto&& v : C )
    for( auto&& x : v )
      x = x * mul + ( mul > 1 ? 7u : 0u );
  std::vector<S> in;
  std::vector<double> w;
  double x = c.uniform( -3, 3 ), sign = c.coin( 0.8 ) ? 1 : -1;
  bool ties = c.coin();
  for( auto&& s : C )
  {
    x += sign * ( ties ? c.uniform( 0, 1 ) : 1 );
    w.push_back( x );
    in.push_back( S( s.begin(), s.end(), x ) );
  }
  K k( in.begin(), in.end() );
  std::string log = "calculateZeroDimensionalPersistenceDiagram(" + lists( C ) + " weights " + list( w ) + ")";
  c.begin( log );
  auto piv = referencePivots( boundaryOf( C ) );
  std::vector<bool> dead( C.size() );
  std::vector<P> off, all;
  std::set< std::pair<unsigned, unsigned> > poff, pall;
  std::map<unsigned, double> roots;
  std::set<unsigned> vertices;
  std::size_t merges = 0;
  for( unsigned j = 0; j < C.size(); j++ )
    if( C[j].size() == 2 && piv[j] >= 0 )
    {
      unsigned i = unsigned( piv[j] );
      dead[i] = true;
      ++merges;
      all.push_back( std::make_pair( w[i], w[j] ) );
      pall.insert( std::make_pair( i, j ) );
      if( w[i] != w[j] )
      {
        off.push_back( all.back() );
        poff.insert( std::make_pair( i, j ) );
      }
    }
  for( unsigned j = 0; j < C.size(); j++ )
    if( C[j].size() == 1 )
    {
      vertices.insert( C[j][0] );
      if( dead[j] )
        continue;
      auto p = std::make_pair( w[j], std::numeric_limits<double>::infinity() );
      auto q = std::make_pair( j, std::numeric_limits<unsigned>::max() );
      all.push_back( p ); off.push_back( p ); pall.insert( q ); poff.insert( q );
      roots[ C[j][0] ] = w[j];
    }
  using namespace aleph::traits;
  run< NoPersistencePairingCalculation<PP>, NoDiagonalElementCalculation >( c, k, off, poff, false, log );
  run< PersistencePairingCalculation<PP>, NoDiagonalElementCalculation >( c, k, off, poff, true, log + " with pairing" );
  run< PersistencePairingCalculation<PP>, DiagonalElementCalculation >( c, k, all, pall, true, log + " with pairing and diagonal" );
  Recorder r;
  aleph::calculateZeroDimensionalPersistenceDiagram<S, NoPersistencePairingCalculation<PP>, NoDiagonalElementCalculation, Recorder&>( k, r );
  c.check( std::set<unsigned>( r.initialized.begin(), r.initialized.end() ) == vertices && r.initialized.size() == vertices.size(), "initialisation", log );
  c.check( r.roots == roots, "remaining components", log );
  std::map<unsigned, unsigned> at;
  for( unsigned j = 0; j < C.size(); j++ )
    if( C[j].size() == 1 )
      at[ C[j][0] ] = j;
  c.check( r.merged.size() == merges, "merges", log );
  std::set<unsigned> gone;
  for( auto&& m : r.merged )
    c.check( at[m.first] > at[m.second] && gone.insert( m.first ).second && !gone.count( m.second ), "elder rule", log );
}

int main( int argc, char** argv )
{
  Context c;
  c.parse( argc, argv );
  while( c.more() )
    guarded( c, "exception", lastCase(), [&] () { one( c ); } );
  return c.finish();
}
