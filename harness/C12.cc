// Persistence diagrams: operations and construction, against the definitions.
#include "common.hh"
#include <aleph/persistenceDiagrams/PersistenceDiagram.hh>
#include <aleph/persistenceDiagrams/Calculation.hh>
#include <aleph/persistentHomology/Calculation.hh>
#include <aleph/persistentHomology/PersistencePairing.hh>
#include <aleph/persistentHomology/algorithms/Standard.hh>
#include <aleph/persistentHomology/algorithms/Twist.hh>
#include <aleph/topology/Simplex.hh>
#include <aleph/topology/SimplicialComplex.hh>
#include <aleph/topology/representations/Vector.hh>
#include <aleph/topology/representations/List.hh>
#include <aleph/topology/representations/Set.hh>

using namespace verif;

template <class T> using Pts = std::vector< std::pair<T, T> >;

template <class T> static T never()
{
  return std::numeric_limits<T>::has_infinity ? std::numeric_limits<T>::infinity() : std::numeric_limits<T>::max();
}

template <class T> static Pts<T> items( const aleph::PersistenceDiagram<T>& D )
{
  Pts<T> r;
  for( auto&& p : D )
    r.push_back( std::make_pair( p.x(), p.y() ) );
  return r;
}

template <class T> static std::string show( const Pts<T>& P )
{
  std::ostringstream o;
  for( auto&& p : P )
    o << "(" << p.first << "," << p.second << ")";
  return o.str();
}

template <class T> static T value( Context& c )
{
  return c.coin( 0.9 ) ? T( c.uniform( -2, 2 ) ) : T( c.real( -50, 50 ) );
}

template <class T> static void history( Context& c )
{
  using D = aleph::PersistenceDiagram<T>;
  D d, e;
  Pts<T> p, q;
  std::string log = std::string( std::numeric_limits<T>::has_infinity ? "real" : "integer" ) + " diagram:";
  c.begin( log );
  std::size_t dim = 0;
  int n = c.uniform( 0, 12 );
  for( int i = 0; i < n; i++ )
  {
    D& x = c.coin( 0.7 ) ? d : e;
    Pts<T>& y = &x == &d ? p : q;
    log += &x == &d ? " a." : " b.";
    int op = c.uniform( 0, 12 );
    if( op == 12 )
    {
      std::size_t at = std::size_t( c.uniform( 0, int( y.size() ) ) ), to = std::size_t( c.uniform( int( at ), int( y.size() ) ) );
      if( c.coin() )
      {
        D& o = &x == &d ? e : d;
        Pts<T>& w = &x == &d ? q : p;
        log += "insert(" + std::to_string( at ) + ",other)";
        x.insert( x.begin() + std::ptrdiff_t( at ), o.begin(), o.end() );
        y.insert( y.begin() + std::ptrdiff_t( at ), w.begin(), w.end() );
      }
      else
      {
        log += "erase(" + std::to_string( at ) + "," + std::to_string( to ) + ")";
        x.erase( x.begin() + std::ptrdiff_t( at ), x.begin() + std::ptrdiff_t( to ) );
        y.erase( y.begin() + std::ptrdiff_t( at ), y.begin() + std::ptrdiff_t( to ) );
      }
    }
    else if( op <= 4 )
    {
      T u = value<T>( c ), v = c.coin( 0.15 ) ? ( c.coin() ? never<T>() : std::numeric_limits<T>::lowest() ) : value<T>( c );
      log += "add(" + str( u ) + "," + str( v ) + ")";
      x.add( u, v );
      y.push_back( std::make_pair( u, v ) );
    }
    else if( op == 5 || op == 6 )
    {
      T u = c.coin( 0.1 ) ? never<T>() : value<T>( c );
      log += "add(" + str( u ) + ")";
      x.add( u );
      y.push_back( std::make_pair( u, never<T>() ) );
    }
    else if( op == 7 )
    {
      log += "removeDiagonal()";
      x.removeDiagonal();
      y.erase( std::remove_if( y.begin(), y.end(), [] ( const std::pair<T, T>& r ) { return r.first == r.second; } ), y.end() );
    }
    else if( op == 8 )
    {
      log += "removeUnpaired()";
      x.removeUnpaired();
      y.erase( std::remove_if( y.begin(), y.end(), [] ( const std::pair<T, T>& r ) { return r.second == never<T>(); } ), y.end() );
    }
    else if( op == 9 )
    {
      log += "removeDuplicates()";
      x.removeDuplicates();
      std::set< std::pair<T, T> > s( y.begin(), y.end() );
      auto z = items( x );
      c.check( std::set< std::pair<T, T> >( z.begin(), z.end() ) == s && z.size() == s.size(), "duplicates", log + " gives " + show( z ) );
      y = z;
    }
    else if( op == 10 )
    {
      D& o = c.coin( 0.8 ) ? ( &x == &d ? e : d ) : ( &x == &d ? d : e );
      if( &o == &x )
      {
        log += "erase(begin)";
        if( !y.empty() )
        {
          x.erase( x.begin() );
          y.erase( y.begin() );
        }
      }
      else
      {
        log += "merge(other)";
        x.merge( o );
        Pts<T>& w = &x == &d ? q : p;
        y.insert( y.end(), w.begin(), w.end() );
      }
    }
    else if( op == 11 )
    {
      dim = std::size_t( c.uniform( 0, 3 ) );
      log += "setDimension";
      d.setDimension( dim );
    }
    else
      continue;
    c.check( items( x ) == y, "points", log + " gives " + show( items( x ) ) + " instead of " + show( y ) );
    std::size_t b = 0;
    for( auto&& r : y )
      b += r.second == never<T>();
    c.check( x.betti() == b, "betti number", log );
    c.check( x.size() == y.size() && x.empty() == y.empty(), "size", log );
    c.check( ( d == e ) == ( p == q ) && ( d != e ) == ( p != q ), "comparison", log );
    c.check( d.dimension() == dim, "dimension", log );
    for( auto&& r : x )
      c.check( r.isUnpaired() == ( r.y() == never<T>() ), "unpaired", log );
    for( auto&& r : x )
      for( auto&& s : x )
      {
        auto f = std::make_pair( r.x(), r.y() ), g = std::make_pair( s.x(), s.y() );
        c.check( ( r == s ) == ( f == g ) && ( r != s ) == ( f != g ) && ( r < s ) == ( f < g ), "order of points", log );
      }
  }
}

template <class T> static void construction( Context& c )
{
  using S = aleph::topology::Simplex<T, unsigned>;
  using K = aleph::topology::SimplicialComplex<S>;
  using D = aleph::PersistenceDiagram<T>;
  bool large = c.coin( 0.2 );
  auto C = randomFiltration( c, randomComplex( c, large ? 8 : 5, large ? 6 : 4, large ? 5 : 4 ) );
  std::vector<S> in;
  std::vector<T> w;
  T v = value<T>( c );
  for( auto&& s : C )
  {
    v += T( c.uniform( 0, 1 ) );
    w.push_back( v );
    in.push_back( S( s.begin(), s.end(), v ) );
  }
  K k( in.begin(), in.end() );
  std::string base = lists( C ) + " weights " + list( w );
  // from any pairing
  {
    std::size_t n = C.size();
    aleph::PersistencePairing<unsigned> pairing;
    std::map<std::size_t, Pts<T> > expected;
    std::string log = "makePersistenceDiagrams(";
    for( int i = n ? c.uniform( 0, 8 ) : 0; i > 0; i-- )
    {
      unsigned a = unsigned( c.uniform( 0, int( n ) - 1 ) ), b = unsigned( c.uniform( 0, int( n ) - 1 ) );
      bool u = c.coin( 0.3 );
      if( u ) pairing.add( a ); else pairing.add( a, b );
      log += "(" + str( a ) + "," + ( u ? std::string( "-" ) : str( b ) ) + ")";
      expected[ C[a].size() - 1 ].push_back( std::make_pair( w[a], u ? never<T>() : w[b] ) );
    }
    log += ") on " + base;
    c.begin( log );
    auto r = aleph::makePersistenceDiagrams( pairing, k );
    c.check( r.size() == expected.size(), "number of diagrams", log );
    std::size_t i = 0;
    for( auto&& e : expected )
      if( i < r.size() )
      {
        c.check( r[i].dimension() == e.first && items( r[i] ) == e.second, "diagram", log + " dimension " + str( e.first ) + ": " + show( items( r[i] ) ) + " instead of " + show( e.second ) );
        i++;
      }
  }
  // the whole calculation
  auto piv = referencePivots( boundaryOf( C ) );
  std::vector<bool> paired( C.size() );
  std::map<std::size_t, Pts<T> > all;
  std::size_t top = 0;
  for( auto&& s : C )
    top = std::max( top, s.size() - 1 );
  for( std::size_t j = 0; j < C.size(); j++ )
    if( piv[j] >= 0 )
    {
      paired[j] = paired[ std::size_t( piv[j] ) ] = true;
      all[ C[ std::size_t( piv[j] ) ].size() - 1 ].push_back( std::make_pair( w[ std::size_t( piv[j] ) ], w[j] ) );
    }
  std::map<std::size_t, Pts<T> > some = all;
  for( std::size_t j = 0; j < C.size(); j++ )
    if( !paired[j] )
    {
      all[ C[j].size() - 1 ].push_back( std::make_pair( w[j], never<T>() ) );
      if( C[j].size() - 1 != top )
        some[ C[j].size() - 1 ].push_back( std::make_pair( w[j], never<T>() ) );
    }
  for( int mode = 0; mode < 8; mode++ )
  {
    bool dual = mode & 1, incl = mode & 2, twist = mode & 4;
    std::string log = std::string( "calculatePersistenceDiagrams<" ) + ( twist ? "twist" : "standard" ) + ">(" + base + ", " + ( dual ? "dual" : "primal" ) + ", " + str( incl ) + ")";
    c.begin( log );
    std::vector<D> r;
    using namespace aleph::persistentHomology::algorithms;
    using namespace aleph::topology::representations;
    int rep = c.uniform( 0, 3 );
    if( rep == 0 && !incl && twist )
      r = dual ? aleph::calculatePersistenceDiagrams( k ) : aleph::calculatePersistenceDiagrams( k, false );
    else if( twist )
      r = rep == 1 ? aleph::calculatePersistenceDiagrams<Twist, List<unsigned> >( k, dual, incl ) : rep == 2 ? aleph::calculatePersistenceDiagrams<Twist, Set<unsigned> >( k, dual, incl ) : aleph::calculatePersistenceDiagrams<Twist, Vector<unsigned> >( k, dual, incl );
    else
      r = rep == 1 ? aleph::calculatePersistenceDiagrams<Standard, List<unsigned> >( k, dual, incl ) : rep == 2 ? aleph::calculatePersistenceDiagrams<Standard, Set<unsigned> >( k, dual, incl ) : aleph::calculatePersistenceDiagrams<Standard, Vector<unsigned> >( k, dual, incl );
    auto& e = incl ? all : some;
    if( !c.check( r.size() == e.size(), "number of diagrams", log ) )
      continue;
    std::size_t i = 0;
    for( auto&& x : e )
    {
      auto p = items( r[i] ), q = x.second;
      std::sort( p.begin(), p.end() );
      std::sort( q.begin(), q.end() );
      c.check( r[i].dimension() == x.first && p == q, "persistence diagram", log + " dimension " + str( x.first ) + ": " + show( p ) + " instead of " + show( q ) );
      i++;
    }
  }
}

// pairings of a function given by its values only
static void values( Context& c )
{
  int n = c.uniform( 1, 6 );
  std::vector<double> f;
  for( int i = 0; i < n; i++ )
    f.push_back( c.uniform( -3, 3 ) );
  aleph::PersistencePairing<unsigned> pairing;
  Pts<double> e;
  std::string log = "makePersistenceDiagram(";
  for( int i = c.uniform( 0, 5 ); i > 0; i-- )
  {
    unsigned a = unsigned( c.uniform( 0, n-1 ) ), b = unsigned( c.uniform( 0, n-1 ) );
    bool u = c.coin( 0.2 );
    if( u ) pairing.add( a ); else pairing.add( a, b );
    log += "(" + str( a ) + "," + ( u ? std::string( "-" ) : str( b ) ) + ")";
    e.push_back( std::make_pair( f[a], u ? never<double>() : f[b] ) );
  }
  log += ", " + list( f ) + ")";
  c.begin( log );
  guarded( c, "function values", log, [&] ()
  {
    auto d = aleph::makePersistenceDiagram( pairing, f );
    c.check( items( d ) == e && d.dimension() == 0, "function values", log + " gives " + show( items( d ) ) );
  } );
}

int main( int argc, char** argv )
{
  Context c;
  c.parse( argc, argv );
  while( c.more() )
    guarded( c, "exception", lastCase(), [&] ()
    {
      history<double>( c );
      history<int>( c );
      construction<double>( c );
      construction<int>( c );
      values( c );
    } );
  return c.finish();
}
