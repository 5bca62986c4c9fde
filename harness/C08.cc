// Filtration orders: sorting against the order computed from the definition.
#include "common.hh"
#include <aleph/topology/Simplex.hh>
#include <aleph/topology/SimplicialComplex.hh>
#include <aleph/topology/filtrations/Data.hh>
#include <aleph/topology/filtrations/LowerStar.hh>
#include <aleph/topology/filtrations/UpperStar.hh>

using namespace verif;

using V = unsigned;
using S = aleph::topology::Simplex<double, V>;
using K = aleph::topology::SimplicialComplex<S>;
namespace F = aleph::topology::filtrations;

struct Item
{
  VSet v; // descending, as the simplex stores them
  double w;
  bool operator==( const Item& o ) const { return v == o.v && w == o.w; }
};

static std::vector<Item> items( const K& k )
{
  std::vector<Item> r;
  for( auto&& s : k )
    r.push_back( { VSet( s.begin(), s.end() ), s.data() } );
  return r;
}

static std::string show( const std::vector<Item>& R )
{
  std::ostringstream o;
  for( auto&& r : R )
    o << list( r.v ) << ":" << r.w << " ";
  return o.str();
}

template <class Functor, class Before> void run( Context& c, const std::string& name, K k, Functor f, Before before, bool facesFirst, const std::string& extra )
{
  auto R = items( k );
  std::string log = name + extra + " on " + show( R );
  c.begin( log );
  // the comparison object itself
  for( auto&& x : k )
    for( auto&& y : k )
    {
      Item a{ VSet( x.begin(), x.end() ), x.data() }, b{ VSet( y.begin(), y.end() ), y.data() };
      c.check( f( x, y ) == before( a, b ), "comparison", name + extra + " of " + list( a.v ) + ":" + str( a.w ) + " and " + list( b.v ) + ":" + str( b.w ) );
    }
  k.sort( f );
  std::sort( R.begin(), R.end(), before );
  auto got = items( k );
  c.check( got == R, "sorted order", log + " gives " + show( got ) );
  if( facesFirst )
  {
    std::set<VSet> seen;
    for( auto&& g : got )
    {
      for( std::size_t i = 0; g.v.size() > 1 && i < g.v.size(); i++ )
      {
        VSet h = g.v;
        h.erase( h.begin() + long( i ) );
        c.check( seen.count( h ) == 1, "a face comes after its coface", log + " gives " + show( got ) );
      }
      seen.insert( g.v );
    }
  }
}

static bool lex( const Item& a, const Item& b ) { return a.v < b.v; }

static void one( Context& c )
{
  auto C = randomComplex( c, c.coin( 0.3 ) ? 7 : 4, 4, c.coin( 0.2 ) ? 5 : 3 );
  unsigned n = 0;
  for( auto&& v : C )
    for( auto x : v )
      n = std::max( n, x + 1 );
  std::vector<double> f;
  int spread = c.coin( 0.5 ) ? 2 : 20;
  for( unsigned i = 0; i < n + unsigned( c.uniform( 0, 2 ) ); i++ )
    f.push_back( c.coin( 0.8 ) ? double( c.uniform( -spread, spread ) ) : c.real( -2, 2 ) );
  // arbitrary weights, weights growing and weights falling along inclusion
  for( int mode = 0; mode < 3; mode++ )
  {
    std::vector<S> in;
    for( auto&& v : C )
    {
      double lo = f[v[0]], hi = f[v[0]];
      for( auto x : v )
        lo = std::min( lo, f[x] ), hi = std::max( hi, f[x] );
      in.push_back( S( v.begin(), v.end(), mode == 0 ? double( c.uniform( -2, 2 ) ) : mode == 1 ? hi : lo ) );
    }
    std::shuffle( in.begin(), in.end(), c.rng );
    K k( in.begin(), in.end() );
    auto small = [] ( const Item& a, const Item& b ) { return a.v.size() != b.v.size() ? a.v.size() < b.v.size() : lex( a, b ); };
    run( c, "ascending weights", k, F::Data<S>(), [&] ( const Item& a, const Item& b ) { return a.w != b.w ? a.w < b.w : small( a, b ); }, mode == 1, "" );
    run( c, "descending weights", k, F::Data<S, std::greater<double>>(), [&] ( const Item& a, const Item& b ) { return a.w != b.w ? a.w > b.w : small( a, b ); }, mode == 2, "" );
    auto hi = [&] ( const Item& a ) { double r = f[a.v[0]]; for( auto x : a.v ) r = std::max( r, f[x] ); return r; };
    auto lo = [&] ( const Item& a ) { double r = f[a.v[0]]; for( auto x : a.v ) r = std::min( r, f[x] ); return r; };
    F::LowerStar<S> lower( f.begin(), f.end() );
    F::UpperStar<S> upper( f.begin(), f.end() );
    run( c, "lower star", k, std::ref( lower ), [&] ( const Item& a, const Item& b ) { return hi( a ) != hi( b ) ? hi( a ) < hi( b ) : lex( a, b ); }, true, " of " + list( f ) );
    run( c, "upper star", k, std::ref( upper ), [&] ( const Item& a, const Item& b ) { return lo( a ) != lo( b ) ? lo( a ) > lo( b ) : lex( a, b ); }, true, " of " + list( f ) );
    auto R = items( k );
    std::string log = "lexicographical order on " + show( R );
    c.begin( log );
    k.sort();
    std::sort( R.begin(), R.end(), lex );
    c.check( items( k ) == R, "lexicographical order", log );
  }
}

int main( int argc, char** argv )
{
  Context c;
  c.parse( argc, argv );
  while( c.more() )
    one( c );
  return c.finish();
}
