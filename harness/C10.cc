// The boundary matrix of a complex against the definition, all storages.
#include "common.hh"
#include <aleph/topology/Simplex.hh>
#include <aleph/topology/SimplicialComplex.hh>
#include <aleph/topology/BoundaryMatrix.hh>
#include <aleph/topology/Conversions.hh>
#include <aleph/topology/representations/Vector.hh>
#include <aleph/topology/representations/List.hh>
#include <aleph/topology/representations/Set.hh>

using namespace verif;

using S = aleph::topology::Simplex<double, unsigned>;
using K = aleph::topology::SimplicialComplex<S>;

template <class R> static void compare( Context& c, const K& k, const std::vector<VSet>& C, const std::vector<Column>& D, std::size_t max, const std::string& log )
{
  auto M = max ? aleph::topology::makeBoundaryMatrix<R>( k, max ) : aleph::topology::makeBoundaryMatrix<R>( k );
  if( !c.check( M.getNumColumns() == C.size(), "columns", log ) )
    return;
  c.check( !M.isDualized(), "dual flag", log );
  for( unsigned j = 0; j < C.size(); j++ )
  {
    auto col = M.getColumn( j );
    Column s( col.begin(), col.end() );
    Column e = max && j >= max ? Column() : D[j];
    c.check( s == e && col.size() == s.size(), "column", log + " column " + str( j ) + " is " + list( col ) + " instead of " + list( e ) );
    c.check( M.getDimension( j ) + 1 == C[j].size(), "dimension", log + " column " + str( j ) );
    auto p = M.getMaximumIndex( j );
    c.check( p.second == !e.empty() && ( e.empty() || p.first == *e.rbegin() ), "largest row", log + " column " + str( j ) );
  }
}

static void one( Context& c )
{
  bool large = c.coin( 0.2 );
  auto C = randomFiltration( c, randomComplex( c, large ? 9 : 5, large ? 6 : 4, large ? 6 : 4 ) );
  if( c.coin( 0.3 ) )
    std::shuffle( C.begin(), C.end(), c.rng );
  // vertex numbers need not be small
  unsigned mul = c.coin( 0.3 ) ? unsigned( c.uniform( 2, 100000 ) ) : 1, off = c.coin( 0.3 ) ? unsigned( c.uniform( 0, 100000 ) ) : 0;
  for( auto&& v : C )
    for( auto&& x : v )
      x = x * mul + off;
  auto D = boundaryOf( C );
  std::vector<S> in;
  double w = 0;
  for( auto&& v : C )
    in.push_back( S( v.begin(), v.end(), c.coin() ? ( w += c.uniform( 0, 1 ) ) : 0.0 ) );
  K k( in.begin(), in.end() );
  std::size_t max = c.coin() ? 0 : std::size_t( c.uniform( 0, int( C.size() ) + 1 ) );
  std::string log = "makeBoundaryMatrix(" + lists( C ) + ", " + str( max ) + ")";
  c.begin( log );
  using namespace aleph::topology::representations;
  compare< Vector<unsigned> >( c, k, C, D, max, log + " vector" );
  compare< List<unsigned> >( c, k, C, D, max, log + " list" );
  compare< Set<unsigned> >( c, k, C, D, max, log + " set" );
}

int main( int argc, char** argv )
{
  Context c;
  c.parse( argc, argv );
  while( c.more() )
    guarded( c, "exception", lastCase(), [&] () { one( c ); } );
  return c.finish();
}
