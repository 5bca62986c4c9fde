// Derived complexes, components, intersections and Euler numbers of random
// complexes, against direct computations on vertex sets.
#include "common.hh"
#include <aleph/persistenceDiagrams/PersistenceDiagram.hh>
#include <aleph/persistentHomology/Calculation.hh>
#include <aleph/persistentHomology/EulerCharacteristic.hh>
#include <aleph/topology/ConnectedComponents.hh>
#include <aleph/topology/Filter.hh>
#include <aleph/topology/Intersections.hh>
#include <aleph/topology/QuotientSpaces.hh>
#include <aleph/topology/Simplex.hh>
#include <aleph/topology/SimplicialComplex.hh>
#include <aleph/topology/Skeleton.hh>

using namespace verif;
using V       = unsigned;
using Simplex = aleph::topology::Simplex<double, V>;
using Complex = aleph::topology::SimplicialComplex<Simplex>;
using Diagram = aleph::PersistenceDiagram<double>;
using Set     = std::set<V>;
using Listed  = std::vector< std::pair<Set, double> >;

static Listed list( const Complex& K )
{
  Listed r;
  for( auto&& s : K )
    r.push_back( { Set( s.begin(), s.end() ), s.data() } );
  return r;
}

static std::string show( const Complex& K )
{
  std::ostringstream o;
  for( auto&& s : K )
  {
    o << "{";
    for( auto v : s )
      o << " " << v;
    o << " |" << s.data() << "} ";
  }
  return o.str();
}

static double weight( const Simplex& s )
{
  double w = 1 + 2 * s.data();
  for( auto v : s )
    w += 0.5 * ( v % 1000 );
  return w;
}

int main( int argc, char** argv )
{
  Context c;
  c.parse( argc, argv );
  while( c.more() )
  {
    int n = c.uniform( 0, c.coin( 0.2 ) ? 9 : 6 );
    Set labels;
    V top = c.coin() ? V( n ) : c.coin() ? 40u : 4000000u;
    while( int( labels.size() ) < n )
      labels.insert( V( c.uniform( 0, int( top ) ) ) );
    std::vector<V> vs( labels.begin(), labels.end() );
    std::set<Set> sets;
    for( auto v : vs )
      sets.insert( Set( { v } ) );
    int m = n > 1 ? c.uniform( 0, 8 ) : 0;
    for( int i = 0; i < m; i++ )
    {
      auto w = vs;
      std::shuffle( w.begin(), w.end(), c.rng );
      w.resize( std::size_t( c.uniform( 1, std::min( n, c.coin() ? 2 : 5 ) ) ) );
      // all faces, most of the time
      if( c.coin( 0.9 ) )
        for( unsigned b = 1; b < ( 1u << w.size() ); b++ )
        {
          Set s;
          for( std::size_t j = 0; j < w.size(); j++ )
            if( b >> j & 1u )
              s.insert( w[j] );
          sets.insert( s );
        }
      else
        sets.insert( Set( w.begin(), w.end() ) );
    }
    std::vector<Simplex> simplices;
    for( auto&& s : sets )
      simplices.push_back( Simplex( s.begin(), s.end(), double( c.uniform( 0, 5 ) ) ) );
    std::shuffle( simplices.begin(), simplices.end(), c.rng );
    Complex K( simplices.begin(), simplices.end() );
    auto text = show( K );
    auto all  = list( K );
    c.begin( text );

    // skeleton and filter
    auto d = std::size_t( c.uniform( 0, 4 ) );
    Listed e;
    for( auto&& s : all )
      if( s.first.size() <= d + 1 )
        e.push_back( s );
    c.check( list( aleph::topology::Skeleton()( d, K ) ) == e, "skeleton", text + " d=" + std::to_string( d ) );
    double t = c.uniform( 0, 5 );
    auto chosen = [&] ( const Simplex& s ) { return s.data() <= t || s.size() == 2; };
    e.clear();
    for( auto&& s : all )
      if( s.second <= t || s.first.size() == 2 )
        e.push_back( s );
    c.check( list( aleph::topology::Filter()( K, chosen ) ) == e, "filter", text );

    // components
    std::map<V, V> comp;
    for( auto v : vs )
      comp[v] = v;
    for( int r = 0; r < n; r++ )
      for( auto&& s : all )
        if( s.first.size() == 2 )
        {
          V x = std::min( comp[*s.first.begin()], comp[*s.first.rbegin()] );
          comp[*s.first.begin()] = comp[*s.first.rbegin()] = x;
        }
    auto uf = aleph::topology::calculateConnectedComponents( K );
    bool same = true;
    for( auto u : vs )
      for( auto v : vs )
        same = same && ( ( uf.find( u ) == uf.find( v ) ) == ( comp[u] == comp[v] ) );
    c.check( same, "connected components", text );

    // Euler numbers
    long chi = 0;
    for( auto&& s : all )
      chi += s.first.size() % 2 == 1 ? 1 : -1;
    c.check( aleph::eulerCharacteristic( K ) == chi, "Euler number of a complex", text );
    std::vector<Diagram> diagrams;
    int k = c.uniform( 0, 4 );
    long expected = 0;
    std::string dt;
    std::set<int> used;
    for( int i = 0; i < k; i++ )
    {
      Diagram D;
      int dim = c.uniform( 0, 5 );
      if( !used.insert( dim ).second )
        continue;
      D.setDimension( std::size_t( dim ) );
      int p = c.uniform( 0, 3 ), q = c.uniform( 0, 4 );
      for( int j = 0; j < p; j++ )
        D.add( 1.0, 2.0 + j );
      for( int j = 0; j < q; j++ )
        D.add( 1.0 * j );
      expected += dim % 2 == 0 ? q : -q;
      diagrams.push_back( D );
      dt += "dimension " + std::to_string( dim ) + ", " + std::to_string( p ) + " points, " + std::to_string( q ) + " unpaired; ";
    }
    c.check( aleph::eulerCharacteristic( diagrams.begin(), diagrams.end() ) == expected, "Euler number of diagrams", dt );

    // cone and suspension
    if( !all.empty() )
    {
      V a = *labels.rbegin() + 1, b = a + 1;
      auto joined = [] ( Set s, V v ) { s.insert( v ); return s; };
      auto C = list( aleph::topology::cone( K, weight ) );
      auto e = all;
      e.push_back( { Set( { a } ), weight( Simplex() ) } );
      for( auto&& s : K )
        e.push_back( { joined( Set( s.begin(), s.end() ), a ), weight( s ) } );
      auto S = list( aleph::topology::suspension( K, weight ) );
      auto f = e;
      f.push_back( { Set( { b } ), weight( Simplex() ) } );
      for( auto&& s : K )
        f.push_back( { joined( Set( s.begin(), s.end() ), b ), weight( s ) } );
      for( auto* l : { &C, &e, &S, &f } )
        std::sort( l->begin(), l->end() );
      c.check( C == e, "cone", text );
      c.check( S == f, "suspension", text );
      c.check( list( aleph::topology::cone( K ) ).size() == e.size(), "cone without weights", text );
    }
    else
      c.check( aleph::topology::cone( K ).empty() && aleph::topology::suspension( K ).empty(), "cone of nothing", text );

    // intersections
    if( !all.empty() )
    {
      auto&& s = simplices[ std::size_t( c.uniform( 0, int( simplices.size() ) - 1 ) ) ];
      auto&& u = simplices[ std::size_t( c.uniform( 0, int( simplices.size() ) - 1 ) ) ];
      Set x( s.begin(), s.end() ), y( u.begin(), u.end() ), z;
      for( auto v : x )
        if( y.count( v ) )
          z.insert( v );
      auto r = aleph::topology::intersect( s, u );
      c.check( Set( r.begin(), r.end() ) == z && r.size() == z.size(), "intersection of simplices", text );
      c.check( aleph::topology::sizeOfIntersection( s, u ) == z.size(), "size of an intersection", text );
    }
  }
  return c.finish();
}
