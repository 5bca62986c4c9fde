// Simplices against plain vertex sets.
#include "common.hh"
#include <aleph/topology/Simplex.hh>

using namespace verif;

template <class S> VSet sorted( const S& s )
{
  VSet v;
  for( auto it = s.begin(); it != s.end(); ++it )
    v.push_back( unsigned( *it ) );
  std::reverse( v.begin(), v.end() );
  return v;
}

// lexicographical comparison of the descending vertex lists
inline bool before( const VSet& a, const VSet& b )
{
  return std::lexicographical_compare( a.rbegin(), a.rend(), b.rbegin(), b.rend() );
}

template <class V> void one( Context& c, const std::string& name )
{
  using S = aleph::topology::Simplex<double, V>;
  int n = c.uniform( 1, c.coin( 0.2 ) ? 12 : 5 );
  auto make = [&] ( std::vector<V>& in )
  {
    int k = c.uniform( 0, n );
    for( int i = 0; i < k; i++ )
      in.push_back( V( c.coin( 0.9 ) ? c.uniform( 0, n ) : int( std::numeric_limits<V>::max() & 0x7fffffff ) - c.uniform( 0, 3 ) ) );
  };
  std::vector<V> a, b;
  make( a );
  make( b );
  if( c.coin( 0.2 ) ) { b = a; std::shuffle( b.begin(), b.end(), c.rng ); }
  if( c.coin( 0.2 ) && !a.empty() ) { b = a; b.pop_back(); }
  double wa = c.uniform( -3, 3 ), wb = c.uniform( -3, 3 );
  std::ostringstream what;
  what << name << " " << list( a ) << ":" << wa << " " << list( b ) << ":" << wb;
  c.begin( what.str() );
  std::set<unsigned> ra( a.begin(), a.end() ), rb( b.begin(), b.end() );
  VSet va( ra.begin(), ra.end() ), vb( rb.begin(), rb.end() );
  S s( a.begin(), a.end(), wa ), t( b.begin(), b.end(), wb );
  c.check( sorted( s ) == va, name + ": vertices", what.str() + " gives " + list( s ) );
  VSet rev;
  for( auto it = s.rbegin(); it != s.rend(); ++it )
    rev.push_back( unsigned( *it ) );
  c.check( rev == va, name + ": reverse vertices", what.str() );
  c.check( s.data() == wa, name + ": data", what.str() );
  c.check( s.empty() == va.empty() && bool( s ) == !va.empty() && s.size() == va.size(), name + ": size", what.str() );
  bool thrown = false;
  std::size_t d = 0;
  try { d = s.dimension(); } catch( std::runtime_error& ) { thrown = true; }
  c.check( thrown == va.empty() && ( thrown || d == va.size() - 1 ), name + ": dimension", what.str() );
  c.check( ( s == t ) == ( va == vb ) && ( s != t ) == ( va != vb ), name + ": equality", what.str() );
  c.check( ( s < t ) == before( va, vb ) && ( t < s ) == before( vb, va ), name + ": order", what.str() );
  for( int v = 0; v <= n; v++ )
    c.check( s.contains( V( v ) ) == ( ra.count( unsigned( v ) ) > 0 ), name + ": contains", what.str() + " vertex " + str( v ) );
  for( std::size_t i = 0; i < va.size() + 2; i++ )
  {
    bool out = false;
    unsigned x = 0;
    try { x = unsigned( s[i] ); } catch( std::out_of_range& ) { out = true; }
    c.check( out == ( i >= va.size() ) && ( out || x == va[ va.size() - 1 - i ] ), name + ": subscript", what.str() + " at " + str( i ) );
  }
  std::vector<VSet> faces, expected;
  for( auto it = s.begin_boundary(); it != s.end_boundary(); ++it )
    faces.push_back( sorted( *it ) );
  if( va.size() > 1 )
    for( std::size_t i = va.size(); i-- > 0; )
    {
      VSet f = va;
      f.erase( f.begin() + long( i ) );
      expected.push_back( f );
    }
  c.check( faces == expected, name + ": boundary", what.str() + " gives " + lists( faces ) );
  for( auto it = s.begin_boundary(); it != s.end_boundary(); ++it )
    c.check( *it < s && !( s < *it ), name + ": face after coface", what.str() );
  S u( s, wb );
  c.check( u == s && u.data() == wb && s.data() == wa, name + ": copy with new data", what.str() );
  s.setData( wb );
  c.check( s.data() == wb && sorted( s ) == va, name + ": set data", what.str() );
  s.setData();
  c.check( s.data() == 0, name + ": reset data", what.str() );
  if( !a.empty() )
  {
    S v( a[0], wa );
    c.check( v.size() == 1 && v[0] == a[0] && v.data() == wa && v.dimension() == 0 && v.begin_boundary() == v.end_boundary(), name + ": vertex", what.str() );
  }
  c.check( !( s == t ) || hash_value( s ) == hash_value( t ), name + ": hash", what.str() );
  S e;
  c.check( e.empty() && e.data() == 0 && e.begin_boundary() == e.end_boundary(), name + ": empty simplex", what.str() );
}

int main( int argc, char** argv )
{
  Context c;
  c.parse( argc, argv );
  while( c.more() )
  {
    one<unsigned>( c, "unsigned" );
    one<unsigned short>( c, "unsigned short" );
    one<unsigned char>( c, "unsigned char" );
  }
  return c.finish();
}
