// Maximal cliques of random graphs, against an enumeration of all vertex subsets.
#include "common.hh"
#include <aleph/topology/MaximalCliques.hh>
#include <aleph/topology/Simplex.hh>
#include <aleph/topology/SimplicialComplex.hh>

using namespace verif;
using V       = unsigned;
using Simplex = aleph::topology::Simplex<double, V>;
using Complex = aleph::topology::SimplicialComplex<Simplex>;

int main( int argc, char** argv )
{
  Context c;
  c.parse( argc, argv );
  while( c.more() )
  {
    int n = c.uniform( 1, c.coin( 0.1 ) ? 12 : 8 );
    std::set<V> labels;
    V top = c.coin() ? V( n ) : c.coin() ? 40u : 4000000u;
    while( int( labels.size() ) < n )
      labels.insert( V( c.uniform( 0, int( top ) ) ) );
    std::vector<V> vs( labels.begin(), labels.end() );
    double p = c.real( 0, 1 );
    std::vector<Simplex> simplices;
    std::vector<unsigned> adj( vs.size(), 0u );
    std::ostringstream o;
    for( auto v : vs )
      simplices.push_back( Simplex( v ) );
    o << "vertices";
    for( auto v : vs )
      o << " " << v;
    o << "; edges";
    for( std::size_t i = 0; i < vs.size(); i++ )
      for( std::size_t j = i + 1; j < vs.size(); j++ )
        if( c.coin( p ) )
        {
          adj[i] |= 1u << j;
          adj[j] |= 1u << i;
          simplices.push_back( Simplex( { vs[i], vs[j] } ) );
          o << " {" << vs[i] << "," << vs[j] << "}";
        }
    if( c.coin( 0.3 ) )
      std::shuffle( simplices.begin(), simplices.end(), c.rng );
    if( c.coin( 0.2 ) )
      for( std::size_t i = 0; i < vs.size(); i++ )
        for( std::size_t j = i + 1; j < vs.size(); j++ )
          for( std::size_t k = j + 1; k < vs.size(); k++ )
            if( ( adj[i] >> j & 1u ) && ( adj[i] >> k & 1u ) && ( adj[j] >> k & 1u ) && c.coin() )
              simplices.push_back( Simplex( { vs[i], vs[j], vs[k] } ) );
    c.begin( o.str() );
    std::set< std::set<V> > expected;
    for( unsigned m = 1; m < ( 1u << vs.size() ); m++ )
    {
      unsigned common = ( 1u << vs.size() ) - 1;
      bool clique = true;
      for( std::size_t i = 0; i < vs.size(); i++ )
        if( m >> i & 1u )
        {
          clique = clique && ( ( adj[i] | 1u << i ) & m ) == m;
          common &= adj[i];
        }
      if( !clique || common != 0 )
        continue;
      std::set<V> s;
      for( std::size_t i = 0; i < vs.size(); i++ )
        if( m >> i & 1u )
          s.insert( vs[i] );
      expected.insert( s );
    }
    Complex K( simplices.begin(), simplices.end() );
    auto a = aleph::topology::maximalCliquesKoch( K );
    auto b = aleph::topology::maximalCliquesBronKerbosch( K );
    std::set< std::set<V> > sa( a.begin(), a.end() ), sb( b.begin(), b.end() );
    c.check( sa == expected, "Koch: wrong set of maximal cliques", o.str() );
    c.check( sa.size() == a.size(), "Koch: repeated clique", o.str() );
    c.check( sb == expected, "Bron-Kerbosch: wrong set of maximal cliques", o.str() );
    c.check( sb.size() == b.size(), "Bron-Kerbosch: repeated clique", o.str() );
  }
  return c.finish();
}
