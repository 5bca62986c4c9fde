// Dualization: anti-transpose, complementary dimensions, involution, same pairs.
#include "common.hh"
#include <aleph/topology/BoundaryMatrix.hh>
#include <aleph/topology/representations/List.hh>
#include <aleph/topology/representations/Set.hh>
#include <aleph/topology/representations/Vector.hh>
#include <aleph/persistentHomology/algorithms/Standard.hh>

using namespace verif;
namespace rep = aleph::topology::representations;

template <class R> void one( Context& c, const std::string& name, const std::vector<Column>& D, const std::vector<unsigned>& dims )
{
  using Index = typename R::Index;
  std::string w = name + " " + lists( D ) + " dimensions " + list( dims );
  c.begin( w );
  guarded( c, name, w, [&]
  {
    aleph::topology::BoundaryMatrix<R> M;
    M.setNumColumns( Index( D.size() ) );
    for( std::size_t j = 0; j < D.size(); j++ )
    {
      std::vector<Index> col( D[j].begin(), D[j].end() );
      M.setColumn( Index( j ), col.begin(), col.end() );
      M.setDimension( Index( j ), Index( dims[j] ) );
    }
    auto before = M;
    auto E = M.dualize();
    std::vector<Column> X;
    std::vector<unsigned> x;
    dual( D, dims, X, x );
    c.check( M == before, name + ": source changed", w );
    c.check( E.getNumColumns() == D.size(), name + ": number of columns", w );
    c.check( E.isDualized() && !M.isDualized(), name + ": flag", w );
    for( std::size_t j = 0; j < D.size() && j < E.getNumColumns(); j++ )
    {
      std::vector<Index> e( X[j].begin(), X[j].end() );
      c.check( E.getColumn( Index( j ) ) == e, name + ": column of the dual", w + " column " + str( j ) + " is " + list( E.getColumn( Index( j ) ) ) );
      c.check( E.getDimension( Index( j ) ) == Index( x[j] ), name + ": dimension in the dual", w + " column " + str( j ) );
    }
    auto F = E.dualize();
    c.check( !F.isDualized(), name + ": flag of the double dual", w );
    for( std::size_t j = 0; j < D.size() && j < F.getNumColumns(); j++ )
    {
      std::vector<Index> e( D[j].begin(), D[j].end() );
      c.check( F.getColumn( Index( j ) ) == e, name + ": double dual differs", w + " column " + str( j ) );
    }
    // pairs of the dual are those of the primal, mirrored
    aleph::persistentHomology::algorithms::Standard A;
    A( M );
    A( E );
    std::set< std::pair<Index, Index> > p, q;
    auto n = Index( D.size() );
    for( Index j = 0; j < n; j++ )
    {
      auto r = M.getMaximumIndex( j );
      if( r.second ) p.insert( { r.first, j } );
      r = E.getMaximumIndex( j );
      if( r.second ) q.insert( { n - 1 - j, n - 1 - r.first } );
    }
    c.check( p == q, name + ": primal and dual pairs differ", w );
  } );
}

template <class R> void group( Context& c, const std::string& name )
{
  int s = c.uniform( 0, 7 );
  std::vector<Column> D;
  std::vector<unsigned> dims;
  if( c.coin( 0.6 ) )
  {
    auto K = randomFiltration( c, randomComplex( c, s + 2, s + 1, c.uniform( 1, 5 ) ) );
    D = boundaryOf( K );
    for( auto&& v : K )
      dims.push_back( unsigned( v.size() - 1 ) );
    if( c.coin( 0.3 ) )
      relative( D, dims, std::size_t( c.uniform( 0, int( D.size() ) ) ) );
  }
  else
  {
    // any square matrix
    int n = c.uniform( 0, c.coin( 0.1 ) ? 60 : 9 );
    double p = c.real( 0, 1 );
    for( int j = 0; j < n; j++ )
    {
      Column x;
      for( int i = 0; i < n; i++ )
        if( c.coin( p ) )
          x.insert( unsigned( i ) );
      D.push_back( x );
      dims.push_back( unsigned( c.uniform( 0, 6 ) ) );
    }
  }
  one<R>( c, name, D, dims );
}

int main( int argc, char** argv )
{
  Context c;
  c.parse( argc, argv );
  while( c.more() )
    switch( c.uniform( 0, 3 ) )
    {
      case 0:  group<rep::Vector<unsigned> >( c, "Vector" ); break;
      case 1:  group<rep::List<unsigned> >( c, "List" ); break;
      case 2:  group<rep::Vector<short> >( c, "Vector<short>" ); break;
      default: group<rep::Set<unsigned> >( c, "Set" ); break;
    }
  return c.finish();
}
