// Shared scaffolding of the bounded search programs.  Every program runs the
// real headers of the repository and compares them with brute-force oracles.
#ifndef VERIF_COMMON_HH
#define VERIF_COMMON_HH

#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <numeric>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <tuple>
#include <vector>

#include <signal.h>
#include <unistd.h>

namespace verif
{

// input in progress, reported when the code under test crashes or hangs
inline char* lastCase()
{
  static char buffer[4096];
  return buffer;
}

inline void crashed( int s )
{
  const char* a = s == SIGALRM ? "FAIL the code under test does not terminate: " : "FAIL the code under test crashed: ";
  ssize_t r = write( 1, a, std::strlen( a ) );
  r = write( 1, lastCase(), std::strlen( lastCase() ) );
  r = write( 1, "\n", 1 );
  (void) r;
  _exit( 1 );
}

struct Context
{
  unsigned seed = 1;
  double budget = 10;
  bool thorough = false;
  bool deep     = false;
  std::mt19937_64 rng;
  std::chrono::steady_clock::time_point start = std::chrono::steady_clock::now();
  long cases = 0;
  int fails  = 0;
  std::map<std::string, long> stats;
  std::map<std::string, int> perKind;

  void parse( int argc, char** argv )
  {
    for( int i = 1; i < argc; i++ )
    {
      std::string a = argv[i];
      std::string v = i+1 < argc ? argv[i+1] : "";
      if( a == "--seed" )   seed   = static_cast<unsigned>( std::stoul( v ) );
      if( a == "--budget" ) budget = std::stod( v );
      if( a == "--tier" )   thorough = v == "thorough";
      if( a == "--deep" )   deep = true;
    }
    rng.seed( seed * 7919u + 13u );
    std::cout << std::unitbuf;
    for( int s : { SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGALRM } )
      signal( s, crashed );
  }

  double elapsed() const
  {
    return std::chrono::duration<double>( std::chrono::steady_clock::now() - start ).count();
  }

  // fraction of the budget used so far is below f
  bool more( double f = 1.0 ) const { return elapsed() < budget * f && fails < 40; }

  int uniform( int a, int b ) { return std::uniform_int_distribution<int>( a, b )( rng ); }
  double real( double a, double b ) { return std::uniform_real_distribution<double>( a, b )( rng ); }
  bool coin( double p = 0.5 ) { return real( 0, 1 ) < p; }

  // announce the input about to be used, so that a crash can be attributed
  void begin( const std::string& what )
  {
    ++cases;
    alarm( 60 );
    std::strncpy( lastCase(), oneLine( what ).c_str(), 4000 );
  }

  void fail( const std::string& kind, const std::string& what )
  {
    ++fails;
    if( ++perKind[kind] <= 5 )
      std::cout << "FAIL " << kind << ": " << oneLine( what ) << "\n";
  }

  bool check( bool ok, const std::string& kind, const std::string& what )
  {
    ++stats[ "assertions" ];
    if( !ok )
      fail( kind, what );
    return ok;
  }

  static std::string oneLine( std::string s )
  {
    for( auto& c : s )
      if( c == '\n' )
        c = ' ';
    return s.substr( 0, 1500 );
  }

  int finish()
  {
    std::cout << "STAT cases=" << cases << "\n";
    for( auto&& s : stats )
      std::cout << "STAT " << s.first << "=" << s.second << "\n";
    return fails ? 1 : 0;
  }
};

// Uncaught exceptions of the code under test are failures of the current case.
template <class F> void guarded( Context& c, const std::string& kind, const std::string& what, F f )
{
  try { f(); }
  catch( const std::exception& e ) { c.fail( kind, what + " -> exception: " + e.what() ); }
  catch( ... ) { c.fail( kind, what + " -> unknown exception" ); }
}

template <class T> std::string str( const T& t )
{
  std::ostringstream o;
  o << t;
  return o.str();
}

template <class C> std::string list( const C& c )
{
  std::ostringstream o;
  o << "{";
  bool first = true;
  for( auto&& x : c )
  {
    if( !first ) o << ",";
    first = false;
    o << x;
  }
  o << "}";
  return o.str();
}

template <class C> std::string lists( const C& c )
{
  std::ostringstream o;
  o << "[";
  for( auto&& x : c )
    o << list( x );
  o << "]";
  return o.str();
}

// ---------------------------------------------------------------------
// Z/2 linear algebra on sets of row indices

using Column = std::set<unsigned>;

inline Column add( const Column& a, const Column& b )
{
  Column c;
  std::set_symmetric_difference( a.begin(), a.end(), b.begin(), b.end(), std::inserter( c, c.begin() ) );
  return c;
}

// reduced form of c with respect to a pivot-indexed basis
inline Column reduceBy( Column c, const std::map<unsigned, Column>& basis )
{
  Column rest;
  while( !c.empty() )
  {
    auto p = *c.rbegin();
    auto it = basis.find( p );
    if( it == basis.end() )
    {
      rest.insert( p );
      c.erase( p );
    }
    else
      c = add( c, it->second );
  }
  return rest;
}

// reference reduction: column j reduced by earlier columns only; returns the
// pivot of every column (-1: zero column)
inline std::vector<long> referencePivots( const std::vector<Column>& D )
{
  std::map<unsigned, Column> basis;
  std::vector<long> r;
  for( auto c : D )
  {
    while( !c.empty() )
    {
      auto it = basis.find( *c.rbegin() );
      if( it == basis.end() )
        break;
      c = add( c, it->second );
    }
    if( c.empty() )
      r.push_back( -1 );
    else
    {
      r.push_back( long( *c.rbegin() ) );
      basis[ *c.rbegin() ] = c;
    }
  }
  return r;
}

// ---------------------------------------------------------------------
// Random abstract simplicial complexes, faces first

using VSet = std::vector<unsigned>;

inline std::vector<VSet> closure( const std::vector<VSet>& facets )
{
  std::set<VSet> s;
  for( auto f : facets )
  {
    std::sort( f.begin(), f.end() );
    f.erase( std::unique( f.begin(), f.end() ), f.end() );
    for( unsigned long m = 1; m < ( 1ul << f.size() ); m++ )
    {
      VSet v;
      for( std::size_t i = 0; i < f.size(); i++ )
        if( m & ( 1ul << i ) )
          v.push_back( f[i] );
      s.insert( v );
    }
  }
  return std::vector<VSet>( s.begin(), s.end() );
}

inline std::vector<VSet> randomComplex( Context& c, int maxVertices, int maxFacets, int maxSize )
{
  int n = c.uniform( 1, maxVertices );
  int m = c.uniform( 0, maxFacets );
  std::vector<VSet> facets;
  for( int i = 0; i < m; i++ )
  {
    VSet f;
    int k = c.uniform( 1, maxSize );
    for( int j = 0; j < k; j++ )
      f.push_back( unsigned( c.uniform( 0, n-1 ) ) );
    facets.push_back( f );
  }
  return closure( facets );
}

// random order in which every face precedes its cofaces (not necessarily by dimension)
inline std::vector<VSet> randomFiltration( Context& c, std::vector<VSet> simplices )
{
  std::map<VSet, double> w;
  std::sort( simplices.begin(), simplices.end(), [] ( const VSet& a, const VSet& b ) { return a.size() < b.size() || ( a.size() == b.size() && a < b ); } );
  for( auto&& s : simplices )
  {
    double v = 0;
    if( s.size() > 1 )
      for( std::size_t i = 0; i < s.size(); i++ )
      {
        VSet t = s;
        t.erase( t.begin() + long( i ) );
        v = std::max( v, w[t] );
      }
    w[s] = v + c.real( 0.001, 1 );
  }
  std::stable_sort( simplices.begin(), simplices.end(), [&] ( const VSet& a, const VSet& b ) { return w[a] < w[b]; } );
  return simplices;
}

inline std::vector<Column> boundaryOf( const std::vector<VSet>& simplices )
{
  std::map<VSet, unsigned> idx;
  for( std::size_t i = 0; i < simplices.size(); i++ )
    idx[ simplices[i] ] = unsigned( i );
  std::vector<Column> D;
  for( auto&& s : simplices )
  {
    Column c;
    if( s.size() > 1 )
      for( std::size_t i = 0; i < s.size(); i++ )
      {
        VSet t = s;
        t.erase( t.begin() + long( i ) );
        c.insert( idx.at( t ) );
      }
    D.push_back( c );
  }
  return D;
}

// chain complex relative to the first k simplices
inline void relative( std::vector<Column>& D, std::vector<unsigned>& dims, std::size_t k )
{
  std::vector<Column> E;
  for( std::size_t j = k; j < D.size(); j++ )
  {
    Column c;
    for( auto i : D[j] )
      if( i >= k )
        c.insert( unsigned( i - k ) );
    E.push_back( c );
  }
  D = E;
  dims.erase( dims.begin(), dims.begin() + long( k ) );
}

// anti-transpose with complementary dimensions
inline void dual( const std::vector<Column>& D, const std::vector<unsigned>& dims, std::vector<Column>& E, std::vector<unsigned>& e )
{
  auto n = D.size();
  E.assign( n, Column() );
  e.assign( n, 0 );
  unsigned top = 0;
  for( auto d : dims )
    top = std::max( top, d );
  for( std::size_t j = 0; j < n; j++ )
  {
    e[n-1-j] = top - dims[j];
    for( auto i : D[j] )
      E[n-1-i].insert( unsigned( n-1-j ) );
  }
}

} // namespace verif

#endif
