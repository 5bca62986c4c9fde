// Disjoint sets against a naive partition, any history of operations.
#include "common.hh"
#include <aleph/topology/UnionFind.hh>

using namespace verif;

template <class V> void one( Context& c, const std::string& name, bool chains )
{
  int n = c.uniform( 0, c.coin( 0.1 ) ? 40 : 8 );
  std::vector<V> items;
  for( int i = 0; i < n; i++ )
    items.push_back( V( c.coin( 0.8 ) ? i : c.uniform( 0, 100 ) ) );
  std::shuffle( items.begin(), items.end(), c.rng );
  std::map<V, V> rep;                                     // representative of every item
  for( auto&& i : items )
    rep[i] = i;
  std::ostringstream log;
  log << name << " " << list( items );
  aleph::topology::UnionFind<V> U( items.begin(), items.end() );
  if( items.empty() )
    return;
  int ops = c.uniform( 1, 30 );
  V last = items.front();
  for( int k = 0; k < ops; k++ )
  {
    V a = items[ std::size_t( c.uniform( 0, n-1 ) ) ], b = items[ std::size_t( c.uniform( 0, n-1 ) ) ];
    if( chains && c.coin( 0.7 ) )
    {
      b = rep[a];
      a = last;
    }
    int op = c.uniform( 0, 9 );
    if( op <= 4 )
    {
      log << " merge(" << a << "," << b << ")";
      c.begin( log.str() );
      U.merge( a, b );
      V x = rep[a], y = rep[b];
      for( auto&& r : rep )
        if( r.second == x )
          r.second = y;
      last = a;
    }
    else if( op <= 6 )
    {
      log << " find(" << a << ")";
      c.begin( log.str() );
      auto r = U.find( a );
      c.check( r == rep[a], name + ": find", log.str() + " is " + str( r ) );
    }
    else if( op == 7 )
    {
      std::vector<V> r;
      log << " roots";
      c.begin( log.str() );
      U.roots( std::back_inserter( r ) );
      std::multiset<V> got( r.begin(), r.end() );
      std::multiset<V> e;
      for( auto&& x : rep )
        if( x.second == x.first )
          e.insert( x.first );
      c.check( got == e, name + ": roots", log.str() + " is " + list( got ) );
    }
    else if( op == 8 )
    {
      std::vector<V> r;
      log << " get(" << a << ")";
      c.begin( log.str() );
      U.get( a, std::back_inserter( r ) );
      std::multiset<V> got( r.begin(), r.end() );
      std::multiset<V> e;
      for( auto&& x : rep )
        if( x.second == rep[a] )
          e.insert( x.first );
      c.check( got == e, name + ": members", log.str() + " is " + list( got ) );
    }
    else
    {
      V x = V( c.uniform( 0, 101 ) );
      c.begin( log.str() );
      c.check( U.contains( x ) == ( rep.count( x ) > 0 ), name + ": contains", log.str() + " contains(" + str( x ) + ")" );
      if( !rep.count( x ) )
      {
        bool thrown = false;
        try { U.find( x ); } catch( std::out_of_range& ) { thrown = true; }
        c.check( thrown, name + ": unknown vertex accepted", log.str() + " find(" + str( x ) + ")" );
      }
    }
  }
  for( auto&& r : rep )
    c.check( U.find( r.first ) == r.second, name + ": final find", log.str() + " find(" + str( r.first ) + ")" );
}

int main( int argc, char** argv )
{
  Context c;
  c.parse( argc, argv );
  while( c.more() )
  {
    one<unsigned>( c, "unsigned", c.coin() );
    one<unsigned short>( c, "unsigned short", c.coin() );
    one<int>( c, "int", c.coin() );
  }
  return c.finish();
}
