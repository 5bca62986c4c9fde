// Persistence diagrams of complexes and matrices: the same for all algorithms, storages and for the dual.
#include "common.hh"
#include <aleph/persistentHomology/Calculation.hh>
#include <aleph/persistentHomology/algorithms/Standard.hh>
#include <aleph/persistentHomology/algorithms/Twist.hh>
#include <aleph/topology/BoundaryMatrix.hh>
#include <aleph/topology/Conversions.hh>
#include <aleph/topology/Simplex.hh>
#include <aleph/topology/SimplicialComplex.hh>
#include <aleph/topology/representations/List.hh>
#include <aleph/topology/representations/Set.hh>
#include <aleph/topology/representations/Vector.hh>

using namespace verif;
namespace rep = aleph::topology::representations;
namespace alg = aleph::persistentHomology::algorithms;
const unsigned INF = std::numeric_limits<unsigned>::max();
using Entry = std::pair<unsigned, unsigned>;
template <class T> using Pts = std::vector< std::pair<T, T> >;
template <class T> using Diagrams = std::map<std::size_t, Pts<T> >;

template <class T> static T never()
{
  return std::numeric_limits<T>::has_infinity ? std::numeric_limits<T>::infinity() : std::numeric_limits<T>::max();
}

template <class T> static Pts<T> items( const aleph::PersistenceDiagram<T>& D )
{
  Pts<T> r;
  for( auto&& p : D )
    r.push_back( std::make_pair( p.x(), p.y() ) );
  return r;
}

template <class T> static std::string show( const Pts<T>& P )
{
  std::string r;
  for( auto&& p : P )
    r += "(" + str( p.first ) + "," + str( p.second ) + ")";
  return r;
}

// rank of the rows >= i of the columns <= j
static int rank( const std::vector<Column>& D, long i, long j )
{
  std::map<unsigned, Column> basis;
  for( long k = 0; k <= j; k++ )
  {
    Column c;
    for( auto r : D[ std::size_t( k ) ] )
      if( long( r ) >= i )
        c.insert( r );
    while( !c.empty() )
    {
      auto it = basis.find( *c.rbegin() );
      if( it == basis.end() )
      {
        basis[ *c.rbegin() ] = c;
        break;
      }
      for( auto r : it->second )
        if( !c.erase( r ) )
          c.insert( r );
    }
  }
  return int( basis.size() );
}

// pairs and unpaired creators in ascending order
static std::vector<Entry> entries( const std::vector<Column>& D, const std::vector<unsigned>& dims, bool all )
{
  std::vector<Entry> r;
  std::set<unsigned> used;
  auto n = long( D.size() );
  unsigned top = 0;
  for( auto d : dims )
    top = std::max( top, d );
  if( n <= 12 )
  {
    for( long j = 0; j < n; j++ )
      for( long i = 0; i < j; i++ )
        if( rank( D, i, j ) - rank( D, i+1, j ) - rank( D, i, j-1 ) + rank( D, i+1, j-1 ) == 1 )
        {
          r.push_back( Entry( unsigned( i ), unsigned( j ) ) );
          used.insert( unsigned( i ) );
          used.insert( unsigned( j ) );
        }
  }
  else
  {
    auto piv = referencePivots( D );
    for( long j = 0; j < n; j++ )
      if( piv[ std::size_t( j ) ] >= 0 )
      {
        r.push_back( Entry( unsigned( piv[ std::size_t( j ) ] ), unsigned( j ) ) );
        used.insert( unsigned( piv[ std::size_t( j ) ] ) );
        used.insert( unsigned( j ) );
      }
  }
  for( unsigned j = 0; j < n; j++ )
    if( !used.count( j ) && ( all || dims[j] != top ) )
      r.push_back( Entry( j, INF ) );
  std::sort( r.begin(), r.end() );
  return r;
}

template <class T, class R> static void compare( Context& c, const std::string& log, const R& r, const Diagrams<T>& e )
{
  if( !c.check( r.size() == e.size(), "number of diagrams", log + ": " + str( r.size() ) + " instead of " + str( e.size() ) ) )
    return;
  std::size_t i = 0;
  for( auto&& x : e )
  {
    auto p = items( r[i] );
    c.check( r[i].dimension() == x.first && p == x.second, "persistence diagram", log + " dimension " + str( x.first ) + ": " + show( p ) + " instead of " + show( x.second ) );
    i++;
  }
}

template <class T, class A, class Rep, class K> static void run( Context& c, const std::string& name, const std::string& base, const K& k, const Diagrams<T>& all, const Diagrams<T>& some )
{
  for( int mode = 0; mode < 6; mode++ )
  {
    bool dual = mode & 1, incl = mode & 2;
    std::string log = name + ( mode < 4 ? std::string( dual ? " dual" : " primal" ) + ( incl ? " all unpaired creators" : "" ) : std::string( dual ? " dual" : "" ) + " by default" ) + " " + base;
    c.begin( log );
    guarded( c, name, log, [&] ()
    {
      auto r = mode < 4 ? aleph::calculatePersistenceDiagrams<A, Rep>( k, dual, incl ) : mode == 4 ? aleph::calculatePersistenceDiagrams<A, Rep>( k ) : aleph::calculatePersistenceDiagrams<A, Rep>( k, dual );
      compare<T>( c, log, r, mode < 4 && incl ? all : some );
    } );
  }
}

template <class A, class R> static void matrix( Context& c, const std::string& name, const std::vector<Column>& D, const std::vector<unsigned>& dims, const std::vector<double>& f )
{
  std::string log = "calculatePersistenceDiagram<" + name + ">(" + lists( D ) + " dimensions " + list( dims ) + ", " + list( f ) + ")";
  c.begin( log );
  guarded( c, name, log, [&] ()
  {
    aleph::topology::BoundaryMatrix<R> M;
    M.setNumColumns( unsigned( D.size() ) );
    for( std::size_t j = 0; j < D.size(); j++ )
    {
      std::vector<unsigned> col( D[j].begin(), D[j].end() );
      M.setColumn( unsigned( j ), col.begin(), col.end() );
      M.setDimension( unsigned( j ), dims[j] );
    }
    Pts<double> e;
    for( auto&& x : entries( D, dims, false ) )
      e.push_back( std::make_pair( f[x.first], x.second == INF ? never<double>() : f[x.second] ) );
    for( int dual = 0; dual < 2; dual++ )
    {
      auto d = aleph::calculatePersistenceDiagram<A>( dual ? M.dualize() : M, f );
      c.check( items( d ) == e && d.dimension() == 0, "diagram of function values", log + ( dual ? " dual" : "" ) + ": " + show( items( d ) ) + " instead of " + show( e ) );
    }
  } );
}

template <class T> static void complexes( Context& c )
{
  using S = aleph::topology::Simplex<T, unsigned>;
  using K = aleph::topology::SimplicialComplex<S>;
  bool large = c.coin( 0.2 );
  auto C = randomFiltration( c, randomComplex( c, large ? 8 : 5, large ? 6 : 4, large ? 5 : 4 ) );
  std::vector<S> in;
  std::vector<T> w;
  std::vector<unsigned> dims;
  T v = T( c.uniform( -3, 3 ) );
  bool monotone = c.coin( 0.8 );
  for( auto&& s : C )
  {
    v += T( monotone ? c.uniform( 0, 1 ) : c.uniform( -2, 2 ) );
    w.push_back( v );
    in.push_back( S( s.begin(), s.end(), v ) );
    dims.push_back( unsigned( s.size() - 1 ) );
  }
  K k( in.begin(), in.end() );
  auto D = boundaryOf( C );
  std::string base = lists( C ) + " weights " + list( w );
  Diagrams<T> all, some;
  for( int i = 0; i < 2; i++ )
    for( auto&& x : entries( D, dims, i == 0 ) )
      ( i == 0 ? all : some )[ dims[x.first] ].push_back( std::make_pair( w[x.first], x.second == INF ? never<T>() : w[x.second] ) );
  switch( c.uniform( 0, 2 ) )
  {
    case 0:
      run<T, alg::Twist, rep::Vector<unsigned> >( c, "twist Vector", base, k, all, some );
      run<T, alg::Standard, rep::Vector<unsigned> >( c, "standard Vector", base, k, all, some );
      break;
    case 1:
      run<T, alg::Twist, rep::List<unsigned> >( c, "twist List", base, k, all, some );
      run<T, alg::Standard, rep::List<unsigned> >( c, "standard List", base, k, all, some );
      break;
    default:
      run<T, alg::Twist, rep::Set<unsigned> >( c, "twist Set", base, k, all, some );
      run<T, alg::Standard, rep::Set<unsigned> >( c, "standard Set", base, k, all, some );
      break;
  }
  c.begin( "default algorithm and storage " + base );
  compare<T>( c, "default algorithm and storage " + base, aleph::calculatePersistenceDiagrams( k ), some );
  std::vector<double> f( w.begin(), w.end() );
  switch( c.uniform( 0, 2 ) )
  {
    case 0:
      matrix<alg::Twist, rep::Vector<unsigned> >( c, "twist Vector", D, dims, f );
      matrix<alg::Standard, rep::Vector<unsigned> >( c, "standard Vector", D, dims, f );
      break;
    case 1:
      matrix<alg::Twist, rep::List<unsigned> >( c, "twist List", D, dims, f );
      matrix<alg::Standard, rep::List<unsigned> >( c, "standard List", D, dims, f );
      break;
    default:
      matrix<alg::Twist, rep::Set<unsigned> >( c, "twist Set", D, dims, f );
      matrix<alg::Standard, rep::Set<unsigned> >( c, "standard Set", D, dims, f );
      break;
  }
}

int main( int argc, char** argv )
{
  Context c;
  c.parse( argc, argv );
  while( c.more() )
    guarded( c, "exception", lastCase(), [&] ()
    {
      complexes<double>( c );
      complexes<int>( c );
    } );
  return c.finish();
}
