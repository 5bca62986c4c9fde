// Persistence pairing: entries read off the reduced matrix.
#include "common.hh"
#include <aleph/persistentHomology/Calculation.hh>
#include <aleph/topology/BoundaryMatrix.hh>
#include <aleph/topology/representations/List.hh>
#include <aleph/topology/representations/Set.hh>
#include <aleph/topology/representations/Vector.hh>
#include <aleph/persistentHomology/algorithms/Standard.hh>
#include <aleph/persistentHomology/algorithms/Twist.hh>

using namespace verif;
namespace rep = aleph::topology::representations;
namespace alg = aleph::persistentHomology::algorithms;
using Entry = std::pair<unsigned, unsigned>;
const unsigned INF = std::numeric_limits<unsigned>::max();

// expected entries of the (not dualized) matrix
std::set<Entry> expected( const std::vector<Column>& D, const std::vector<unsigned>& dims, bool all, unsigned mx )
{
  std::set<Entry> r;
  auto piv = referencePivots( D );
  auto n = unsigned( D.size() );
  unsigned top = 0;
  for( auto d : dims ) top = std::max( top, d );
  std::set<unsigned> used;
  for( unsigned j = 0; j < n; j++ )
    if( piv[j] >= 0 )
    {
      used.insert( unsigned( piv[j] ) );
      used.insert( j );
      if( mx > n || piv[j] < long( mx ) )
        r.insert( { unsigned( piv[j] ), j } );
    }
  for( unsigned j = 0; j < n; j++ )
    if( !used.count( j ) && ( all || dims[j] != top ) && ( mx > n || j < mx ) )
      r.insert( { j, INF } );
  return r;
}

template <class R, class A> void one( Context& c, const std::string& name, const std::vector<Column>& D, const std::vector<unsigned>& dims, bool all, unsigned mx )
{
  using Index = typename R::Index;
  std::string w = name + " " + lists( D ) + " dimensions " + list( dims ) + ( all ? " all unpaired creators" : "" ) + " max " + str( mx );
  c.begin( w );
  guarded( c, name, w, [&]
  {
    aleph::topology::BoundaryMatrix<R> M;
    M.setNumColumns( Index( D.size() ) );
    for( std::size_t j = 0; j < D.size(); j++ )
    {
      std::vector<Index> col( D[j].begin(), D[j].end() );
      M.setColumn( Index( j ), col.begin(), col.end() );
      M.setDimension( Index( j ), Index( dims[j] ) );
    }
    auto e = expected( D, dims, all, mx );
    for( int dual = 0; dual < 2; dual++ )
    {
      auto X = dual ? M.dualize() : M;
      auto Y = X;
      auto P = mx == INF ? aleph::calculatePersistencePairing<A>( X, all ) : aleph::calculatePersistencePairing<A>( X, all, mx );
      std::string k = name + ( dual ? " dual" : " primal" );
      c.check( X == Y, k + ": matrix changed", w );
      std::vector<Entry> v( P.begin(), P.end() );
      std::set<Entry> s( v.begin(), v.end() );
      c.check( std::is_sorted( v.begin(), v.end() ), k + ": not sorted", w );
      c.check( s.size() == v.size() && P.size() == v.size(), k + ": repeated entries", w );
      if( mx == INF && !all )
        c.check( aleph::calculatePersistencePairing<A>( X ) == P, k + ": default arguments", w );
      auto Q = P;
      c.check( Q == P && !( Q != P ), k + ": equality", w );
      Q.add( 0, 0 );
      c.check( Q != P && !( Q == P ), k + ": inequality", w );
      std::string got;
      for( auto&& p : v ) got += "(" + str( p.first ) + "," + str( p.second ) + ")";
      c.check( s == e, k + ": wrong entries", w + " got " + got );
      for( unsigned i = 0; i < D.size(); i++ )
      {
        bool in = false;
        for( auto&& p : v ) in = in || p.first == i;
        c.check( P.contains( i ) == in, k + ": contains( creator )", w + " creator " + str( i ) );
        for( unsigned j = 0; j < D.size() && D.size() < 12; j++ )
          c.check( P.contains( i, j ) == ( s.count( { i, j } ) > 0 ), k + ": contains( creator, destroyer )", w );
      }
    }
  } );
}

template <class R> void algs( Context& c, const std::string& name, const std::vector<Column>& D, const std::vector<unsigned>& dims, bool all, unsigned mx )
{
  one<R, alg::Standard>( c, name + " standard", D, dims, all, mx );
  one<R, alg::Twist>( c, name + " twist", D, dims, all, mx );
}

int main( int argc, char** argv )
{
  Context c;
  c.parse( argc, argv );
  while( c.more() )
  {
    int s = c.uniform( 0, 6 );
    auto K = randomFiltration( c, randomComplex( c, s + 2, s + 1, c.uniform( 1, 5 ) ) );
    auto D = boundaryOf( K );
    std::vector<unsigned> dims;
    for( auto&& v : K )
      dims.push_back( unsigned( v.size() - 1 ) );
    if( c.coin( 0.15 ) )
      relative( D, dims, std::size_t( c.uniform( 0, int( D.size() ) ) ) );
    bool all = c.coin();
    unsigned mx = c.coin() ? INF : unsigned( c.uniform( 0, int( D.size() ) + 2 ) );
    switch( c.uniform( 0, 2 ) )
    {
      case 0:  algs<rep::Vector<unsigned> >( c, "Vector", D, dims, all, mx ); break;
      case 1:  algs<rep::List<unsigned> >( c, "List", D, dims, all, mx ); break;
      default: algs<rep::Set<unsigned> >( c, "Set", D, dims, all, mx ); break;
    }
  }
  return c.finish();
}
