// Distances and norms of persistence diagrams, against their definitions.
#include "common.hh"
#include <aleph/persistenceDiagrams/PersistenceDiagram.hh>
#include <aleph/persistenceDiagrams/Norms.hh>
#include <aleph/persistenceDiagrams/distances/Hausdorff.hh>
#include <aleph/persistenceDiagrams/distances/NearestNeighbour.hh>
#include <aleph/persistenceDiagrams/distances/detail/Orthogonal.hh>
#include <aleph/math/KahanSummation.hh>
#include <list>

using namespace verif;

template <class T> using Pts = std::vector< std::pair<T, T> >;

template <class T> static std::string show( const Pts<T>& P )
{
  std::ostringstream o;
  o.precision( 17 );
  for( auto&& p : P )
    o << "(" << p.first << "," << p.second << ")";
  return o.str();
}

template <class T> static Pts<T> random( Context& c )
{
  Pts<T> r;
  int n = c.coin( 0.1 ) ? c.uniform( 10, 40 ) : c.uniform( 0, 6 );
  bool small = c.coin();
  for( int i = 0; i < n; i++ )
  {
    T x = T( small ? c.uniform( -3, 3 ) : c.real( -100, 100 ) );
    T y = T( small ? c.uniform( -3, 3 ) : c.real( -100, 100 ) );
    r.push_back( std::make_pair( x, y ) );
  }
  return r;
}

template <class T> static T dist( std::pair<T, T> p, std::pair<T, T> q )
{
  T a = p.first > q.first ? p.first - q.first : q.first - p.first;
  T b = p.second > q.second ? p.second - q.second : q.second - p.second;
  return a > b ? a : b;
}

static bool near( long double a, long double b, long double scale )
{
  return std::fabs( double( a - b ) ) <= 1e-13 * double( 1 + scale );
}

template <class T> static void compare( Context& c, const Pts<T>& p, const Pts<T>& q, const char* type )
{
  using D = aleph::PersistenceDiagram<T>;
  std::string in = std::string( type ) + " diagrams " + show( p ) + " and " + show( q );
  c.begin( in );
  D a, b;
  for( auto&& x : p ) a.add( x.first, x.second );
  for( auto&& x : q ) b.add( x.first, x.second );
  auto h = aleph::distances::hausdorffDistance( a, b );
  if( p.empty() && q.empty() )
    c.check( h == T(), "Hausdorff distance of empty diagrams", in );
  else if( p.empty() || q.empty() )
    c.check( h == ( std::numeric_limits<T>::has_infinity ? std::numeric_limits<T>::infinity() : std::numeric_limits<T>::max() ), "Hausdorff distance to an empty diagram", in );
  else
  {
    T best = T();
    long double sum = 0;
    for( auto&& x : p )
    {
      T m = dist( x, q[0] );
      for( auto&& y : q ) m = std::min( m, dist( x, y ) );
      best = std::max( best, m );
      sum += m;
    }
    for( auto&& x : q )
    {
      T m = dist( x, p[0] );
      for( auto&& y : p ) m = std::min( m, dist( x, y ) );
      best = std::max( best, m );
      sum += m;
    }
    std::ostringstream o;
    o.precision( 17 );
    o << in << ": returned " << h << ", expected " << best;
    c.check( h == best, "Hausdorff distance", o.str() );
    if( std::numeric_limits<T>::has_infinity )
    {
      auto n = aleph::distances::nearestNeighbourDistance( a, b );
      std::ostringstream s;
      s.precision( 17 );
      s << in << ": returned " << n << ", expected " << double( sum / 2 );
      c.check( near( n, sum / 2, sum ), "nearest-neighbour distance", s.str() );
    }
  }
  if( p.empty() && q.empty() )
    c.check( aleph::distances::nearestNeighbourDistance( a, b ) == T(), "nearest-neighbour distance of empty diagrams", in );
  T norm = T();
  long double total1 = 0, total2 = 0;
  double k = c.uniform( 1, 3 );
  for( auto&& x : p )
  {
    T m = x.first > x.second ? x.first - x.second : x.second - x.first;
    norm = std::max( norm, m );
    long double e = std::pow( static_cast<double>( m ), k );
    total1 += e;
    total2 += std::fabs( static_cast<double>( x.first ) ) * e;
  }
  c.check( aleph::infinityNorm( a ) == norm, "infinity norm", in );
  c.check( near( aleph::totalPersistence( a, k ), total1, total1 ), "total persistence", in + " power " + std::to_string( k ) );
  c.check( near( aleph::totalPersistence( a, k, true ), total2, total2 ), "weighted total persistence", in + " power " + std::to_string( k ) );
  c.check( aleph::totalPersistence( a ) == aleph::totalPersistence( a, 2.0, false ) && aleph::pNorm( a ) == aleph::pNorm( a, 2.0, false ), "default power", in );
  long double root1 = std::pow( double( total1 ), 1 / k ), root2 = std::pow( double( total2 ), 1 / k );
  c.check( near( aleph::pNorm( a, k ), root1, 10 * root1 ), "p-norm", in + " power " + std::to_string( k ) );
  c.check( near( aleph::pNorm( a, k, true ), root2, 10 * root2 ), "weighted p-norm", in + " power " + std::to_string( k ) );
  bool thrown = false;
  try { aleph::pNorm( a, 0.0 ); } catch( std::runtime_error& ) { thrown = true; }
  c.check( thrown, "p-norm for a vanishing power", in );
}

static void orthogonal( Context& c )
{
  using Point = aleph::PersistenceDiagram<double>::Point;
  double x = c.coin() ? c.uniform( -5, 5 ) : c.real( -10, 10 ), y = c.coin() ? c.uniform( -5, 5 ) : c.real( -10, 10 );
  std::ostringstream o;
  o.precision( 17 );
  o << "point (" << x << "," << y << ")";
  c.begin( o.str() );
  double d = aleph::distances::detail::orthogonalDistance< aleph::geometry::distances::InfinityDistance<double> >( Point( x, y ) );
  c.check( near( d, std::fabs( x - y ) / 2, std::fabs( x ) + std::fabs( y ) ), "distance to the diagonal", o.str() );
}

// the error of a compensated sum does not grow with the number of terms
static void sums( Context& c )
{
  std::vector<double> v;
  int n = c.coin( 0.7 ) ? c.uniform( 0, 20 ) : c.uniform( 200, 3000 );
  int mode = c.uniform( 0, 2 );
  for( int i = 0; i < n; i++ )
    v.push_back( mode == 0 ? c.real( -1, 1 ) : mode == 1 ? c.real( 0, 1 ) * 1e-16 : i % 7 ? 1e-17 * c.uniform( 1, 9 ) : c.real( 0, 1 ) );
  double init = mode == 1 ? 1.0 : c.uniform( -2, 2 );
  long double exact = init, scale = std::fabs( init );
  for( auto x : v )
  {
    exact += x;
    scale += std::fabs( x );
  }
  std::ostringstream o;
  o.precision( 17 );
  o << n << " values, initial value " << init << ":";
  for( std::size_t i = 0; i < v.size() && i < 30; i++ )
    o << " " << v[i];
  c.begin( o.str() );
  double eps = std::numeric_limits<double>::epsilon();
  auto ok = [&]( double r ) { return std::fabs( double( r - exact ) ) <= 3 * eps * double( scale ) + 1e-300; };
  std::list<double> l( v.begin(), v.end() );
  c.check( ok( aleph::math::accumulate_kahan( v.begin(), v.end(), init ) ), "compensated sum", o.str() );
  c.check( ok( aleph::math::accumulate_kahan_sorted( l.begin(), l.end(), init ) ), "compensated sum of sorted values", o.str() );
  aleph::math::KahanSummation<double> s( init );
  for( auto x : v )
    s -= x;
  double r = s;
  c.check( std::fabs( double( r - ( 2 * init - exact ) ) ) <= 3 * eps * double( scale ) + 1e-300, "compensated difference", o.str() );
  // scaling in between
  aleph::math::KahanSummation<double> m( init );
  double f = std::ldexp( 1.0, c.uniform( -60, 60 ) ) * ( c.coin() ? 1 : -1 );
  bool divide = c.coin();
  for( auto x : v )
    m += x;
  if( divide ) m /= f; else m *= f;
  long double g = divide ? 1.0L / f : f;
  long double total = exact * g, bound = scale * std::fabs( double( g ) );
  for( auto x : v )
  {
    m += x * double( g );
    total += x * g;
    bound += std::fabs( double( x * g ) );
  }
  c.check( std::fabs( double( double( m ) - total ) ) <= 8 * eps * double( bound ) + 1e-300, "compensated sum scaled in between", o.str() + " factor " + str( double( g ) ) );
}

int main( int argc, char** argv )
{
  Context c;
  c.parse( argc, argv );
  while( c.more() )
  {
    auto p = random<double>( c );
    compare<double>( c, p, c.coin( 0.1 ) ? p : random<double>( c ), "double" );
    compare<int>( c, random<int>( c ), random<int>( c ), "integer" );
    orthogonal( c );
    sums( c );
  }
  return c.finish();
}
