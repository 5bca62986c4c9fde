// Simplicial complexes against a plain list of vertex sets, any history.
#include "common.hh"
#include <aleph/topology/Simplex.hh>
#include <aleph/topology/SimplicialComplex.hh>

using namespace verif;

using V = unsigned;
using S = aleph::topology::Simplex<double, V>;
using K = aleph::topology::SimplicialComplex<S>;
using Ref = std::vector< std::pair<VSet, double> >;

static VSet sorted( const S& s )
{
  VSet v( s.begin(), s.end() );
  std::reverse( v.begin(), v.end() );
  return v;
}

static std::size_t position( const Ref& R, const VSet& v )
{
  std::size_t i = 0;
  while( i < R.size() && R[i].first != v )
    ++i;
  return i;
}

static bool lexBefore( const VSet& a, const VSet& b )
{
  return std::lexicographical_compare( a.rbegin(), a.rend(), b.rbegin(), b.rend() );
}

static VSet without( VSet v, std::size_t i )
{
  v.erase( v.begin() + long( i ) );
  return v;
}

static std::string show( const Ref& R )
{
  std::ostringstream o;
  o << "[";
  for( auto&& r : R )
    o << list( r.first ) << ":" << r.second << " ";
  o << "]";
  return o.str();
}

static void compare( Context& c, const K& k, const Ref& R, const std::string& log )
{
  Ref got;
  for( auto&& s : k )
    got.push_back( std::make_pair( sorted( s ), s.data() ) );
  if( !c.check( got == R, "simplices differ", log + " gives " + show( got ) + " instead of " + show( R ) ) )
    return;
  c.check( k.size() == R.size() && k.empty() == R.empty(), "size", log );
  bool thrown = false;
  std::size_t d = 0, e = 0;
  try { d = k.dimension(); } catch( std::runtime_error& ) { thrown = true; }
  std::set<V> vertices;
  for( auto&& r : R )
  {
    e = std::max( e, r.first.size() - 1 );
    if( r.first.size() == 1 )
      vertices.insert( r.first[0] );
  }
  c.check( thrown == R.empty() && ( thrown || d == e ), "dimension", log );
  std::vector<V> vs;
  k.vertices( std::back_inserter( vs ) );
  c.check( vs == std::vector<V>( vertices.begin(), vertices.end() ), "vertex set", log + " gives " + list( vs ) );
  for( std::size_t i = 0; i <= R.size(); i++ )
  {
    bool out = false;
    try { c.check( sorted( k.at( i ) ) == R.at( i ).first, "at", log ); } catch( std::out_of_range& ) { out = true; }
    c.check( out == ( i == R.size() ), "at: range", log );
  }
  for( std::size_t dim = 0; dim <= e + 1; dim++ )
  {
    std::multiset<VSet> a, b;
    auto r = k.range( dim );
    for( auto it = r.first; it != r.second; ++it )
      a.insert( sorted( *it ) );
    for( auto&& x : R )
      if( x.first.size() == dim + 1 )
        b.insert( x.first );
    c.check( a == b, "simplices by dimension", log + " dimension " + str( dim ) );
  }
  std::size_t last = 0, n = 0;
  for( auto it = k.begin_dimension(); it != k.end_dimension(); ++it, ++n )
  {
    c.check( it->dimension() >= last, "order by dimension", log );
    last = it->dimension();
  }
  c.check( n == R.size(), "order by dimension: size", log );
  n = 0;
  VSet prev;
  for( auto it = k.begin_lexicographical(); it != k.end_lexicographical(); ++it, ++n )
  {
    c.check( n == 0 || lexBefore( prev, sorted( *it ) ), "lexicographical order", log );
    prev = sorted( *it );
  }
  c.check( n == R.size(), "lexicographical order: size", log );
}

static S simplex( const VSet& v, double w ) { return S( v.begin(), v.end(), w ); }

static void history( Context& c )
{
  int n = c.uniform( 1, c.coin( 0.2 ) ? 7 : 4 );
  auto random = [&] ()
  {
    std::set<unsigned> s;
    int k = c.uniform( 1, std::min( n, 4 ) );
    while( int( s.size() ) < k )
      s.insert( unsigned( c.uniform( 0, n-1 ) ) );
    return VSet( s.begin(), s.end() );
  };
  auto weight = [&] () { return double( c.uniform( -4, 4 ) ); };
  K k;
  Ref R;
  std::ostringstream log;
  auto push = [&] ( const VSet& v, double w )
  {
    if( position( R, v ) == R.size() )
      R.push_back( std::make_pair( v, w ) );
  };
  auto complete = [&] ()
  {
    for( std::size_t i = 0; i < R.size(); i++ )
      if( R[i].first.size() > 1 )
        for( std::size_t j = R[i].first.size(); j-- > 0; )
        {
          double w = R[i].second;
          push( without( R[i].first, j ), w );
        }
  };
  int ops = c.uniform( 1, 8 );
  for( int o = 0; o < ops && c.fails < 40; o++ )
  {
    VSet v = random();
    double w = weight();
    switch( c.uniform( 0, 11 ) )
    {
    case 0: case 1:
      log << " push_back(" << list( v ) << ":" << w << ")";
      c.begin( log.str() );
      k.push_back( simplex( v, w ) );
      push( v, w );
      break;
    case 2:
    {
      std::vector<S> in;
      log << " insert(";
      int m = c.uniform( 0, 4 );
      for( int i = 0; i < m; i++ )
      {
        VSet x = random();
        double y = weight();
        in.push_back( simplex( x, y ) );
        push( x, y );
        log << list( x ) << ":" << y << " ";
      }
      log << ")";
      c.begin( log.str() );
      k.insert( in.begin(), in.end() );
      break;
    }
    case 3: case 4:
    {
      // the order in which missing faces are appended is left open
      log << " createMissingFaces";
      c.begin( log.str() );
      auto old = R.size();
      k.createMissingFaces();
      Ref got;
      for( auto&& s : k )
        got.push_back( std::make_pair( sorted( s ), s.data() ) );
      complete();
      bool ok = got.size() == R.size();
      for( std::size_t i = 0; ok && i < got.size(); i++ )
        ok = i < old ? got[i] == R[i] : position( R, got[i].first ) < R.size();
      // new faces carry the weight of one of their cofaces
      for( std::size_t i = old; ok && i < got.size(); i++ )
      {
        bool found = false;
        for( auto&& g : got )
          found = found || ( g.first.size() == got[i].first.size() + 1 && g.second == got[i].second && std::includes( g.first.begin(), g.first.end(), got[i].first.begin(), got[i].first.end() ) );
        ok = found;
      }
      if( c.check( ok, "missing faces", log.str() + " gives " + show( got ) + " instead of " + show( R ) ) )
        R = got;
      else
        return;
      break;
    }
    case 5:
      log << " remove_without_validation(" << list( v ) << ")";
      c.begin( log.str() );
      k.remove_without_validation( simplex( v, w ) );
      if( position( R, v ) < R.size() )
        R.erase( R.begin() + long( position( R, v ) ) );
      break;
    case 6: case 7:
    {
      // exactly the simplices that can no longer be supported go
      log << " remove(" << list( v ) << ")";
      c.begin( log.str() );
      k.remove( simplex( v, w ) );
      if( position( R, v ) < R.size() )
        R.erase( R.begin() + long( position( R, v ) ) );
      for( bool again = true; again; )
      {
        again = false;
        for( std::size_t i = 0; i < R.size() && !again; i++ )
          if( R[i].first.size() > 1 )
            for( std::size_t j = 0; j < R[i].first.size(); j++ )
              if( position( R, without( R[i].first, j ) ) == R.size() )
              {
                R.erase( R.begin() + long( i ) );
                again = true;
                break;
              }
      }
      break;
    }
    case 8:
    {
      log << " sort by data";
      c.begin( log.str() );
      auto f = [] ( const S& a, const S& b ) { return a.data() < b.data() || ( a.data() == b.data() && a < b ); };
      k.sort( f );
      std::stable_sort( R.begin(), R.end(), [] ( const std::pair<VSet, double>& a, const std::pair<VSet, double>& b ) { return a.second < b.second || ( a.second == b.second && lexBefore( a.first, b.first ) ); } );
      break;
    }
    case 9:
      log << " sort";
      c.begin( log.str() );
      k.sort();
      std::sort( R.begin(), R.end(), [] ( const std::pair<VSet, double>& a, const std::pair<VSet, double>& b ) { return lexBefore( a.first, b.first ); } );
      break;
    case 10:
    {
      auto p = position( R, v );
      log << " replace(" << list( v ) << ":" << w << ")";
      c.begin( log.str() );
      auto it = k.find( simplex( v, 0 ) );
      if( c.check( ( it == k.end() ) == ( p == R.size() ), "find", log.str() ) && p < R.size() )
      {
        k.replace( it, simplex( v, w ) );
        R[p].second = w;
      }
      break;
    }
    default:
      if( c.coin( 0.2 ) )
      {
        log << " clear";
        k.clear();
        R.clear();
      }
    }
    compare( c, k, R, log.str() );
    for( int i = 0; i < 4; i++ )
    {
      VSet q = random();
      auto p = position( R, q );
      c.check( k.contains( simplex( q, 1 ) ) == ( p < R.size() ), "contains", log.str() + " query " + list( q ) );
      bool thrown = false;
      std::size_t x = 0;
      try { x = k.index( simplex( q, 1 ) ); } catch( std::runtime_error& ) { thrown = true; }
      c.check( thrown == ( p == R.size() ) && ( thrown || x == p ), "index", log.str() + " query " + list( q ) );
      const K& kc = k;
      auto it = kc.find( simplex( q, 1 ) );
      c.check( ( it == kc.end() ) == ( p == R.size() ) && ( p == R.size() || ( sorted( *it ) == q && it->data() == R[p].second ) ), "find", log.str() + " query " + list( q ) );
    }
  }
  K l = k;
  c.check( l == k && !( l != k ), "equality", log.str() );
  VSet v = random();
  l.push_back( simplex( v, 0 ) );
  bool same = position( R, v ) < R.size();
  c.check( ( l == k ) == same && ( l != k ) == !same, "equality after push_back", log.str() );
  compare( c, k, R, log.str() + " after copying" );
  std::vector<S> all( k.begin(), k.end() );
  K m( all.begin(), all.end() );
  compare( c, m, R, log.str() + " rebuilt" );
  if( R.size() > 1 )
  {
    std::reverse( all.begin(), all.end() );
    K r( all.begin(), all.end() );
    c.check( r != k, "equality ignores the order", log.str() );
  }
}

int main( int argc, char** argv )
{
  Context c;
  c.parse( argc, argv );
  while( c.more() )
    history( c );
  return c.finish();
}
