// Matrix representations against a plain model, random histories of operations.
#include "common.hh"
#include <aleph/topology/BoundaryMatrix.hh>
#include <aleph/topology/representations/List.hh>
#include <aleph/topology/representations/Set.hh>
#include <aleph/topology/representations/Vector.hh>

using namespace verif;
namespace rep = aleph::topology::representations;

struct ModelMatrix
{
  std::vector<Column> cols;
  std::vector<unsigned> dims;
};

template <class R> void compare( Context& c, const std::string& name, R& r, const ModelMatrix& m, const std::string& h )
{
  using Index = typename R::Index;
  c.check( r.getNumColumns() == m.cols.size(), name + " number of columns", h );
  unsigned top = 0;
  for( auto d : m.dims )
    top = std::max( top, d );
  c.check( r.getDimension() == top, name + " maximum dimension", h );
  for( std::size_t j = 0; j < m.cols.size(); j++ )
  {
    auto col = r.getColumn( Index( j ) );
    c.check( std::is_sorted( col.begin(), col.end() ), name + " column not ascending", h );
    c.check( std::vector<unsigned>( col.begin(), col.end() ) == std::vector<unsigned>( m.cols[j].begin(), m.cols[j].end() ), name + " column content", h + " column " + str( j ) );
    c.check( r.getDimension( Index( j ) ) == m.dims[j], name + " column dimension", h );
    auto p = r.getMaximumIndex( Index( j ) );
    c.check( p.second == !m.cols[j].empty(), name + " pivot existence", h );
    if( p.second )
      c.check( p.first == *m.cols[j].rbegin(), name + " pivot value", h );
  }
}

template <class R> void history( Context& c, const std::string& name )
{
  using Index = typename R::Index;
  aleph::topology::BoundaryMatrix<R> r;
  ModelMatrix m;
  std::string h = name + ":";
  int n = c.uniform( 1, 8 );
  r.setNumColumns( Index( n ) );
  m.cols.resize( std::size_t( n ) );
  m.dims.resize( std::size_t( n ), 0 );
  h += " n=" + str( n );
  int steps = c.uniform( 1, 30 );
  c.begin( name + " seed " + str( c.seed ) );
  guarded( c, name, h, [&]
  {
    for( int s = 0; s < steps; s++ )
    {
      auto k = m.cols.size();
      int op = c.uniform( 0, 9 );
      if( k == 0 )
        op = 9;
      auto j = k ? std::size_t( c.uniform( 0, int( k ) - 1 ) ) : 0;
      if( op < 4 )
      {
        Column col;
        int q = c.uniform( 0, 6 );
        for( int i = 0; i < q; i++ )
          col.insert( c.coin( 0.1 ) ? 4294967295u - unsigned( i ) : unsigned( c.uniform( 0, 10 ) ) );
        std::vector<Index> v( col.begin(), col.end() );
        if( c.coin() )
          std::shuffle( v.begin(), v.end(), c.rng );
        r.setColumn( Index( j ), v.begin(), v.end() );
        m.cols[j] = col;
        m.dims[j] = col.empty() ? 0 : unsigned( col.size() - 1 );
        h += " set(" + str( j ) + "," + list( v ) + ")";
      }
      else if( op < 7 && k > 1 )
      {
        auto i = std::size_t( c.uniform( 0, int( k ) - 1 ) );
        if( i != j )
        {
          r.addColumns( Index( i ), Index( j ) );
          m.cols[j] = add( m.cols[i], m.cols[j] );
          h += " add(" + str( i ) + "->" + str( j ) + ")";
        }
      }
      else if( op == 7 )
      {
        r.clearColumn( Index( j ) );
        m.cols[j].clear();
        h += " clear(" + str( j ) + ")";
      }
      else if( op == 8 )
      {
        unsigned d = unsigned( c.uniform( 0, 5 ) );
        r.setDimension( Index( j ), d );
        m.dims[j] = d;
        h += " dim(" + str( j ) + "," + str( d ) + ")";
      }
      else
      {
        int q = c.uniform( 0, 9 );
        r.setNumColumns( Index( q ) );
        m.cols.resize( std::size_t( q ) );
        m.dims.resize( std::size_t( q ), 0 );
        h += " resize(" + str( q ) + ")";
      }
      auto before = r;
      compare( c, name, r, m, h );
      c.check( before == r, name + " not equal to its copy", h );
      if( !m.cols.empty() )
      {
        auto x = std::size_t( c.uniform( 0, int( m.cols.size() ) - 1 ) );
        auto other = r;
        if( c.coin() )
        {
          other.setDimension( Index( x ), m.dims[x] + 1 );
          c.check( !( other == r ), name + " equality ignores a dimension", h );
        }
        else
        {
          Column col = m.cols[x];
          if( col.count( 3 ) ) col.erase( 3 ); else col.insert( 3 );
          std::vector<Index> v( col.begin(), col.end() );
          other.setColumn( Index( x ), v.begin(), v.end() );
          other.setDimension( Index( x ), m.dims[x] );
          c.check( !( other == r ), name + " equality ignores an entry", h );
        }
        compare( c, name + " (copy changed)", r, m, h );
      }
    }
  } );
}

int main( int argc, char** argv )
{
  Context c;
  c.parse( argc, argv );
  while( c.more() )
  {
    history<rep::Vector<unsigned> >( c, "Vector" );
    history<rep::List<unsigned> >( c, "List" );
    history<rep::Set<unsigned> >( c, "Set" );
  }
  return c.finish();
}
