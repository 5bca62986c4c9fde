// Weight propagation against the definition, any complex and any order.
#include "common.hh"
#include <aleph/topology/Simplex.hh>
#include <aleph/topology/SimplicialComplex.hh>

using namespace verif;

using V = unsigned;
using S = aleph::topology::Simplex<double, V>;
using K = aleph::topology::SimplicialComplex<S>;
using Ref = std::vector< std::pair<VSet, double> >;

static Ref items( const K& k )
{
  Ref r;
  for( auto&& s : k )
    r.push_back( std::make_pair( VSet( s.begin(), s.end() ), s.data() ) );
  return r;
}

static std::string show( const Ref& R )
{
  std::ostringstream o;
  for( auto&& r : R )
    o << list( r.first ) << ":" << r.second << " ";
  return o.str();
}

// weight of each simplex from the weights of its faces, by increasing size
static void propagate( Ref& R, bool maximum, std::size_t fixed )
{
  std::map<VSet, std::size_t> at;
  std::size_t top = 0;
  for( std::size_t i = 0; i < R.size(); i++ )
    at[ R[i].first ] = i, top = std::max( top, R[i].first.size() );
  for( std::size_t n = fixed + 1; n <= top; n++ )
    for( auto&& r : R )
      if( r.first.size() == n )
      {
        double w = maximum ? std::numeric_limits<double>::lowest() : std::numeric_limits<double>::max();
        for( std::size_t i = 0; i < n; i++ )
        {
          VSet f = r.first;
          f.erase( f.begin() + long( i ) );
          auto it = at.find( f );
          if( it != at.end() )
            w = maximum ? std::max( w, R[it->second].second ) : std::min( w, R[it->second].second );
        }
        r.second = w;
      }
}

static void one( Context& c )
{
  auto C = randomComplex( c, c.coin( 0.3 ) ? 7 : 4, 4, c.coin( 0.3 ) ? 5 : 3 );
  bool partial = c.coin( 0.3 );
  std::vector<S> in;
  unsigned n = 0;
  for( auto&& v : C )
  {
    for( auto x : v )
      n = std::max( n, x + 1 );
    if( partial && c.coin( 0.3 ) )
      continue;
    in.push_back( S( v.begin(), v.end(), c.coin( 0.8 ) ? double( c.uniform( -5, 5 ) ) : c.real( -5, 5 ) ) );
  }
  std::shuffle( in.begin(), in.end(), c.rng );
  K k( in.begin(), in.end() );
  for( int mode = 0; mode < 4; mode++ )
  {
    bool maximum = mode % 2 == 0, skip = mode >= 2;
    K l = k;
    auto R = items( l );
    std::string log = std::string( "recalculateWeights(" ) + ( maximum ? "maximum" : "minimum" ) + ( skip ? ", edges fixed" : "" ) + ") on " + show( R );
    c.begin( log );
    if( mode == 0 && c.coin() )
      l.recalculateWeights();
    else if( mode == 1 && c.coin() )
      l.recalculateWeights( false );
    else
      l.recalculateWeights( maximum, skip );
    propagate( R, maximum, skip ? 2 : 1 );
    c.check( items( l ) == R, "weights from faces", log + " gives " + show( items( l ) ) + " instead of " + show( R ) );
  }
  std::vector<double> f;
  for( unsigned i = 0; i < n; i++ )
    f.push_back( double( c.uniform( -5, 5 ) ) );
  K l = k;
  auto R = items( l );
  std::string log = "recalculateWeights(" + list( f ) + ") on " + show( R );
  c.begin( log );
  l.recalculateWeights( f.begin(), f.end() );
  for( auto&& r : R )
    r.second = r.first.size() == 1 ? f[ r.first[0] ] : 0;
  propagate( R, true, 1 );
  c.check( items( l ) == R, "weights from vertices", log + " gives " + show( items( l ) ) + " instead of " + show( R ) );
  // a vertex without a value is an error
  if( !f.empty() )
  {
    bool needed = false, thrown = false;
    for( auto&& r : R )
      needed = needed || ( r.first.size() == 1 && r.first[0] + 1 == n );
    K m = k;
    try { m.recalculateWeights( f.begin(), f.end() - 1 ); } catch( std::out_of_range& ) { thrown = true; }
    c.check( thrown == needed, "missing vertex value", log );
  }
}

int main( int argc, char** argv )
{
  Context c;
  c.parse( argc, argv );
  while( c.more() )
    one( c );
  return c.finish();
}
