// Reduction of boundary matrices: every algorithm on every representation.
#include "common.hh"
#include <aleph/topology/BoundaryMatrix.hh>
#include <aleph/topology/representations/List.hh>
#include <aleph/topology/representations/Set.hh>
#include <aleph/topology/representations/Vector.hh>
#include <aleph/persistentHomology/algorithms/Standard.hh>
#include <aleph/persistentHomology/algorithms/Twist.hh>

using namespace verif;
namespace rep = aleph::topology::representations;
namespace alg = aleph::persistentHomology::algorithms;

template <class R> aleph::topology::BoundaryMatrix<R> make( const std::vector<Column>& D, const std::vector<unsigned>& dims )
{
  aleph::topology::BoundaryMatrix<R> M;
  using Index = typename R::Index;
  M.setNumColumns( Index( D.size() ) );
  for( std::size_t j = 0; j < D.size(); j++ )
  {
    std::vector<Index> c( D[j].begin(), D[j].end() );
    M.setColumn( Index( j ), c.begin(), c.end() );
    M.setDimension( Index( j ), Index( dims[j] ) );
  }
  return M;
}

std::string show( const std::vector<Column>& D )
{
  return lists( D );
}

template <class R, class A> void one( Context& c, const std::string& name, const std::vector<Column>& D, const std::vector<unsigned>& dims, bool rectangular = false )
{
  c.begin( name + " " + show( D ) );
  guarded( c, name, show( D ), [&]
  {
    auto M = make<R>( D, dims );
    auto O = M;
    A a;
    a( M );
    auto n = M.getNumColumns();
    c.check( n == D.size(), name + " size", show( D ) );
    std::vector<Column> N;
    for( std::size_t j = 0; j < D.size(); j++ )
    {
      auto col = M.getColumn( typename R::Index( j ) );
      c.check( std::is_sorted( col.begin(), col.end() ), name + " column order", show( D ) );
      N.push_back( Column( col.begin(), col.end() ) );
      c.check( N.back().size() == col.size(), name + " duplicate rows", show( D ) );
      c.check( M.getDimension( typename R::Index( j ) ) == dims[j], name + " dimension changed", show( D ) );
    }
    // every column is the original one plus earlier ones
    std::map<unsigned, Column> basis;
    for( std::size_t j = 0; j < D.size(); j++ )
    {
      c.check( reduceBy( add( N[j], D[j] ), basis ).empty(), name + " column is not the original one plus earlier ones", show( D ) + " column " + str( j ) );
      auto r = D[j];
      while( !r.empty() && basis.count( *r.rbegin() ) )
        r = add( r, basis[ *r.rbegin() ] );
      if( !r.empty() )
        basis[ *r.rbegin() ] = r;
    }
    // pivots
    std::map<unsigned, std::size_t> seen;
    auto ref = referencePivots( D );
    for( std::size_t j = 0; j < D.size(); j++ )
    {
      auto p = M.getMaximumIndex( typename R::Index( j ) );
      c.check( p.second == !N[j].empty(), name + " emptiness", show( D ) );
      if( p.second )
      {
        c.check( p.first == *N[j].rbegin(), name + " pivot", show( D ) );
        if( !rectangular || p.first < n )
        {
          c.check( !seen.count( p.first ), name + " pivots are not distinct", show( D ) + " column " + str( j ) );
          seen[ p.first ] = j;
        }
      }
      if( !rectangular )
        c.check( ( p.second ? long( p.first ) : -1 ) == ref[j], name + " pivot differs from the reference reduction", show( D ) + " column " + str( j ) );
    }
  } );
}

template <class R> void all( Context& c, const std::string& r, const std::vector<Column>& D, const std::vector<unsigned>& dims, bool isComplex )
{
  one<R, alg::Standard>( c, r + " standard", D, dims );
  one<R, alg::StandardRectangular>( c, r + " rectangular", D, dims );
  if( isComplex )
    one<R, alg::Twist>( c, r + " twist", D, dims );
}

void allReps( Context& c, const std::vector<Column>& D, const std::vector<unsigned>& dims, bool isComplex )
{
  all<rep::Vector<unsigned> >( c, "Vector", D, dims, isComplex );
  all<rep::List<unsigned> >( c, "List", D, dims, isComplex );
  all<rep::Set<unsigned> >( c, "Set", D, dims, isComplex );
}

int main( int argc, char** argv )
{
  Context c;
  c.parse( argc, argv );
  // all complexes on few simplices: exhaustive strictly upper triangular matrices
  for( unsigned m = 0; m < ( 1u << 6 ); m++ )
  {
    std::vector<Column> D( 4 );
    unsigned b = 0;
    for( unsigned j = 1; j < 4; j++ )
      for( unsigned i = 0; i < j; i++ )
        if( m & ( 1u << b++ ) )
          D[j].insert( i );
    allReps( c, D, std::vector<unsigned>( 4, 0 ), false );
  }
  while( c.more() )
  {
    int s = c.uniform( 1, 6 );
    auto K = randomFiltration( c, randomComplex( c, s + 2, s + 1, c.uniform( 1, 5 ) ) );
    auto D = boundaryOf( K );
    std::vector<unsigned> dims;
    for( auto&& v : K )
      dims.push_back( unsigned( v.size() - 1 ) );
    allReps( c, D, dims, true );
    if( c.coin( 0.3 ) )
    {
      auto rD = D;
      auto rd = dims;
      relative( rD, rd, std::size_t( c.uniform( 0, int( D.size() ) ) ) );
      allReps( c, rD, rd, true );
    }
    std::vector<Column> E;
    std::vector<unsigned> e;
    dual( D, dims, E, e );
    allReps( c, E, e, true );
    // arbitrary matrices, also not triangular; some with more rows than columns
    int n = c.uniform( 1, 12 );
    double p = c.real( 0.05, 0.7 );
    std::vector<Column> A( static_cast<std::size_t>( n ) );
    bool tri = c.coin();
    for( int j = 0; j < n; j++ )
      for( int i = 0; i < ( tri ? j : n ); i++ )
        if( c.coin( p ) )
          A[std::size_t(j)].insert( unsigned( i ) );
    allReps( c, A, std::vector<unsigned>( std::size_t( n ), 1 ), false );
    for( auto&& col : A )
      for( auto i = 0; i < 3; i++ )
        if( c.coin( 0.1 ) )
          col.insert( unsigned( n + i ) );
    one<rep::Vector<unsigned>, alg::StandardRectangular>( c, "Vector rectangular (tall)", A, std::vector<unsigned>( std::size_t( n ), 1 ), true );
    one<rep::List<unsigned>, alg::StandardRectangular>( c, "List rectangular (tall)", A, std::vector<unsigned>( std::size_t( n ), 1 ), true );
    one<rep::Set<unsigned>, alg::StandardRectangular>( c, "Set rectangular (tall)", A, std::vector<unsigned>( std::size_t( n ), 1 ), true );
  }
  return c.finish();
}
