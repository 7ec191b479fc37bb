/* stdkernels.cpp - P14: the kernels the library ships, moving whole containers. */
#include "graph.hpp"
#include <raftrandom>
#include <raftio>
#include <raftalgorithm>
#include <raftmath>
#include <sstream>
#include <deque>
#include <forward_list>
#include <iterator>

namespace
{
void dawdle( long pace ) { if( pace && sim::wbelow( (uint64_t) pace ) == 0 ) sim::sleep_ns( 1000ull << sim::wbelow( 14 ) ); }
long PACE;
void execute( raft::map &m, long mode )
{
    may_run_out( [&] {
    switch( mode ) {
    case 0: m.exe< partition_dummy, simple_schedule, stdalloc, no_parallel >(); break;
    case 1: m.exe(); break;
    default: m.exe< partition_dummy, simple_schedule, hostile_alloc, no_parallel >(); break;
    }
    } );
}
/** items pass unchanged **/
template < class T > struct Relay : public raft::kernel
{
    Relay() : raft::kernel() { input.addPort< T >( "0" ); output.addPort< T >( "0" ); }
    virtual raft::kstatus run()
    {
        dawdle( PACE );
        T t( Item< T >::make( 0 ) );
        input[ "0" ].template pop< T >( t );
        output[ "0" ].template push< T >( t );
        sim::progress();
        return raft::proceed;
    }
};
/** far more than there is to come, so that what never ends is reported before the run is given up **/
long MOST = 0;
SIM_HOST void got_on( size_t have )
{
    if( (long) have > MOST ) VIOLATES( "P14 P07 P18", "wrong-count", "%zu elements or characters arrived so far, many more than were sent", have );
    sim::progress();
}
template < class T > struct Gather : public raft::kernel
{
    std::vector< T > &to;
    explicit Gather( std::vector< T > &v ) : raft::kernel(), to( v ) { input.addPort< T >( "0" ); }
    virtual raft::kstatus run()
    {
        dawdle( PACE );
        T t{};
        input[ "0" ].template pop< T >( t );
        to.push_back( t );
        got_on( to.size() );
        return raft::proceed;
    }
};
/** the container written to; notes that the writer gets on **/
template < class T > struct Sink : public std::vector< T >
{
    void push_back( const T &t ) { got_on( this->size() ); std::vector< T >::push_back( t ); }
    void push_back( T &&t ) { got_on( this->size() ); std::vector< T >::push_back( std::move( t ) ); }
};
/** a deque and a list written to, likewise **/
template < class T > struct FrontSink : public std::deque< T >
{
    void push_front( const T &t ) { got_on( this->size() ); std::deque< T >::push_front( t ); }
    void push_front( T &&t ) { got_on( this->size() ); std::deque< T >::push_front( std::move( t ) ); }
};
template < class T > struct MidSink : public std::list< T >
{
    typename std::list< T >::iterator insert( typename std::list< T >::const_iterator at, const T &t ) { got_on( this->size() ); return std::list< T >::insert( at, t ); }
    typename std::list< T >::iterator insert( typename std::list< T >::const_iterator at, T &&t ) { got_on( this->size() ); return std::list< T >::insert( at, std::move( t ) ); }
};
/** an iterator over what is there already, likewise **/
template < class It > struct Noted
{
    typedef typename std::iterator_traits< It >::iterator_category iterator_category;
    typedef typename std::iterator_traits< It >::value_type        value_type;
    typedef typename std::iterator_traits< It >::difference_type   difference_type;
    typedef typename std::iterator_traits< It >::pointer           pointer;
    typedef typename std::iterator_traits< It >::reference         reference;
    It it;
    reference operator*() const { return *it; }
    Noted &operator++() { sim::progress(); ++it; return *this; }
    Noted operator++( int ) { Noted was( *this ); ++*this; return was; }
};
size_t cap_of( const sim::Cfg &c, int i )
{
    static const long small[] = { 1, 1, 2, 3, 4, 5, 8, 16 };
    const long k = c[ "caps" ];
    return k == 0 ? 0 : (size_t) small[ scramble( (uint64_t)( k * 17 + i ) ) % 8 ];
}
/** to: any output iterator **/
template < class T, class It, class Out > void pipe_to( const sim::Cfg &c, It b, It e, Out to )
{
    raft::readeach< T, It > rd( raft::read_each< T >( std::move( b ), std::move( e ) ) );
    raft::writeeach< T, Out > wr( raft::write_each< T >( std::move( to ) ) );
    Relay< T > r1, r2;
    raft::lambdak< T > lam( 1, 1, []( Port &in, Port &o ) -> raft::kstatus {
        T t( Item< T >::make( 0 ) );
        in[ "0" ].template pop< T >( t );
        o[ "0" ].template push< T >( t );
        sim::progress();
        return raft::proceed;
    } );
    raft::map m;
    if( c[ "ops" ] ) {
        switch( c[ "hops" ] ) {
        case 0: m += rd >> wr; break;
        case 1: m += rd >> r1 >> wr; break;
        case 2: m += rd >> lam >> wr; break;
        default: m += rd >> r1 >> lam >> r2 >> wr; break;
        }
    }
    else {
        std::vector< raft::kernel * > k;
        k.push_back( &rd );
        switch( c[ "hops" ] ) {
        case 0: break;
        case 1: k.push_back( &r1 ); break;
        case 2: k.push_back( &lam ); break;
        default: k.push_back( &r1 ); k.push_back( &lam ); k.push_back( &r2 ); break;
        }
        k.push_back( &wr );
        for( size_t i = 0; i + 1 < k.size(); i++ ) m.link( k[ i ], "0", k[ i + 1 ], "0", cap_of( c, (int) i ) );
    }
    execute( m, c[ "mode" ] );
}
template < class T > SIM_HOST void same( const std::vector< T > &out, long n, const char *what )
{
    sim::HostScope h;
    for( size_t i = 0; i < out.size() && (long) i < n; i++ )
        if( ! Item< T >::is( out[ i ], i ) ) VIOLATES( "P14 P07 P18", "wrong-element", "%s: element %zu of %ld is not the one expected", what, i, n );
    if( (long) out.size() != n ) VIOLATES( "P14 P07 P18", "wrong-count", "%s: %zu elements instead of %ld", what, out.size(), n );
    sim::probe( "elements transferred", (uint64_t) n );
}
template < class T, class It > void pipe_from( const sim::Cfg &c, It b, It e, Sink< T > &out ) { pipe_to< T >( c, b, e, std::back_inserter( out ) ); }
template < class T > void containers( const sim::Cfg &c )
{
    const long n = c[ "items" ];
    Sink< T > out;
    if( c[ "preset" ] ) out.reserve( (size_t) n );
    switch( c[ "from" ] ) {
    case 0: {
        std::vector< T > in;
        for( long i = 0; i < n; i++ ) in.push_back( Item< T >::make( (uint64_t) i ) );
        pipe_from< T >( c, in.begin(), in.end(), out );
        same( in, n, "the container read from" );
        break;
    }
    case 1: {
        std::list< T > in;
        for( long i = 0; i < n; i++ ) in.push_back( Item< T >::make( (uint64_t) i ) );
        pipe_from< T >( c, in.begin(), in.end(), out );
        break;
    }
    case 2: {
        std::deque< T > in;
        for( long i = 0; i < n; i++ ) in.push_back( Item< T >::make( (uint64_t) i ) );
        pipe_from< T >( c, in.cbegin(), in.cend(), out );
        break;
    }
    case 3: {
        /* from what can only be walked forwards, over what is there */
        std::forward_list< T > in;
        for( long i = n - 1; i >= 0; i-- ) in.push_front( Item< T >::make( (uint64_t) i ) );
        for( long i = 0; i < n; i++ ) out.push_back( Item< T >::make( 999 ) );
        pipe_to< T >( c, in.begin(), in.end(), Noted< typename std::vector< T >::iterator >{ out.begin() } );
        break;
    }
    case 4: {
        /* from an array, into the middle of a list */
        T in[ 150 ];
        for( long i = 0; i < n; i++ ) in[ i ] = Item< T >::make( (uint64_t) i );
        MidSink< T > mid;
        mid.push_back( Item< T >::make( 998 ) );
        mid.push_back( Item< T >::make( 999 ) );
        pipe_to< T >( c, (const T *) in, (const T *) in + n, std::insert_iterator< MidSink< T > >( mid, std::next( mid.begin() ) ) );
        if( mid.size() < 2 || ! Item< T >::is( mid.front(), 998 ) || ! Item< T >::is( mid.back(), 999 ) )
            VIOLATES( "P14 P07 P18", "wrong-element", "what was in the list before is not where it was" );
        mid.pop_back();
        mid.pop_front();
        for( auto &t : mid ) out.push_back( t );
        break;
    }
    default: {
        /* back to front */
        std::list< T > in;
        FrontSink< T > back;
        for( long i = 0; i < n; i++ ) in.push_back( Item< T >::make( (uint64_t) i ) );
        pipe_to< T >( c, in.begin(), in.end(), std::front_inserter( back ) );
        for( auto it( back.rbegin() ); it != back.rend(); ++it ) out.push_back( *it );
        break;
    }
    }
    same< T >( out, n, "the container written to" );
}
/** keeps what is printed, outside the memory that may run out **/
std::string TEXT;
struct Tap : public std::streambuf
{
    SIM_HOST Tap() { sim::HostScope h; TEXT.clear(); }
    SIM_HOST void add( const char *b, size_t n ) { sim::HostScope h; TEXT.append( b, n ); got_on( TEXT.size() ); }
    virtual int overflow( int ch ) { const char c = (char) ch; add( &c, 1 ); return (unsigned char) c; }
    virtual std::streamsize xsputn( const char *t, std::streamsize n ) { add( t, (size_t) n ); return n; }
};
/* ---- printing: item i of port p is p * 1000000 + i ---- */
SIM_HOST void printed( const std::string &txt, long ports, long n, char delim )
{
    sim::HostScope h;
    std::vector< long > next( (size_t) ports, 0 );
    size_t at = 0;
    long count = 0;
    while( at < txt.size() ) {
        size_t e = at;
        while( e < txt.size() && txt[ e ] >= '0' && txt[ e ] <= '9' && ( delim || e - at < 8 ) ) e++;
        if( e == at ) VIOLATES( "P14 P07 P18", "wrong-text", "unexpected character %d at %zu of the printed text", txt[ at ], at );
        const long v = atol( std::string( txt, at, e - at ).c_str() ) - 10000000;
        const long p = v / 1000000, i = v % 1000000;
        if( v < 0 || p >= ports || i >= n ) VIOLATES( "P14 P07 P18", "wrong-text", "item %ld of the printed text was never sent", count );
        if( i != next[ (size_t) p ] ) VIOLATES( "P14 P07 P18", "wrong-text", "port %ld: item %ld printed in place of item %ld", p, i, next[ (size_t) p ] );
        next[ (size_t) p ]++;
        count++;
        sim::hist( (uint64_t) v );
        if( delim ) {
            if( e >= txt.size() || txt[ e ] != delim ) VIOLATES( "P14 P07 P18", "wrong-text", "no delimiter after item %ld", count );
            e++;
        }
        at = e;
    }
    for( long p = 0; p < ports; p++ ) if( next[ (size_t) p ] != n ) VIOLATES( "P14 P07 P18", "wrong-count", "%ld of %ld items printed from port %ld", next[ (size_t) p ], n, p );
    sim::probe( "items printed", (uint64_t) count );
}
template < char D > void printing( const sim::Cfg &c )
{
    using vec = std::vector< uint32_t >;
    using reader = raft::readeach< uint32_t, vec::iterator >;
    static const char *const pn[] = { "0", "1", "2", "3" };
    const long ports = c[ "ports" ], n = c[ "items" ];
    Tap tap;
    std::ostream text( &tap );
    {
        std::vector< vec > in( (size_t) ports );
        std::vector< reader * > rd;
        raft::print< uint32_t, D > made( text, (size_t) ports );
        {
            raft::map m;
            /* a copy belongs to the application */
            raft::kernel *const pr = c[ "copy" ] ? made.clone() : &made;
            for( long p = 0; p < ports; p++ ) {
                for( long i = 0; i < n; i++ ) in[ (size_t) p ].push_back( (uint32_t)( 10000000 + p * 1000000 + i ) );
                rd.push_back( new reader( raft::read_each< uint32_t >( in[ (size_t) p ].begin(), in[ (size_t) p ].end() ) ) );
                m.link( rd.back(), "0", pr, pn[ p ], cap_of( c, (int) p ) );
            }
            execute( m, c[ "mode" ] );
        }
        for( auto *r : rd ) delete r;
    }
    printed( TEXT, ports, n, D );
}
/* ---- random values ---- */
void generating( const sim::Cfg &c )
{
    const long n = c[ "items" ];
    std::vector< uint32_t > a;
    std::vector< double > b;
    if( c[ "from" ] < 3 ) {
        raft::random_variate< std::default_random_engine, std::uniform_int_distribution, uint32_t > g( (size_t) n, 5u, 900u );
        Gather< uint32_t > s( a );
        raft::map m;
        m.link( c[ "copy" ] ? g.clone() : &g, "0", &s, "0", cap_of( c, 0 ) );
        execute( m, c[ "mode" ] );
    }
    else {
        raft::random_variate< std::mt19937, std::uniform_real_distribution, double > g( (size_t) n, 5.0, 900.0 );
        Gather< double > s( b );
        Relay< double > r;
        raft::map m;
        m.link( c[ "copy" ] ? g.clone() : &g, "0", &r, "0", cap_of( c, 0 ) );
        m.link( &r, "0", &s, "0", cap_of( c, 1 ) );
        execute( m, c[ "mode" ] );
    }
    const size_t got = a.size() + b.size();
    if( (long) got != n ) VIOLATES( "P14 P07 P18", "wrong-count", "a generator asked for %ld values delivered %zu", n, got );
    for( auto v : a ) if( v < 5 || v > 900 ) VIOLATES( "P14 P07 P18", "wrong-element", "a value outside the distribution: %u", v );
    for( auto v : b ) if( ! ( v >= 5.0 && v <= 900.0 ) ) VIOLATES( "P14 P07 P18", "wrong-element", "a value outside the distribution" );
    sim::probe( "values generated", got );
}
/* ---- user functions with several ports of different types ---- */
void functions( const sim::Cfg &c )
{
    const long n = c[ "items" ];
    long sent = 0;
    std::vector< uint64_t > x;
    std::vector< std::string > y;
    raft::lambdak< uint64_t, std::string > src( 0, 2, [&]( Port &, Port &o ) -> raft::kstatus {
        if( sent >= n ) return raft::stop;
        const uint64_t v( Item< uint64_t >::make( (uint64_t) sent ) );
        const std::string s( Item< std::string >::make( (uint64_t) sent ) );
        o[ "0" ].push< uint64_t >( v );
        o[ "1" ].push< std::string >( s );
        sim::progress();
        return ++sent >= n ? raft::stop : raft::proceed;
    } );
    raft::lambdak< uint64_t, std::string, std::string, uint64_t > mid( 2, 2, [&]( Port &i, Port &o ) -> raft::kstatus {
        if( i[ "0" ].size() ) { uint64_t v; i[ "0" ].pop< uint64_t >( v ); o[ "1" ].push< uint64_t >( v ); }
        if( i[ "1" ].size() ) { std::string s; i[ "1" ].pop< std::string >( s ); o[ "0" ].push< std::string >( s ); }
        sim::progress();
        return raft::proceed;
    } );
    Gather< uint64_t > ga( x );
    Gather< std::string > gb( y );
    {
        raft::map m;
        m.link( &src, "0", &mid, "0", cap_of( c, 0 ) );
        m.link( &src, "1", &mid, "1", cap_of( c, 1 ) );
        m.link( &mid, "0", &gb, "0", cap_of( c, 2 ) );
        m.link( &mid, "1", &ga, "0", cap_of( c, 3 ) );
        execute( m, c[ "mode" ] );
    }
    same( x, n, "numbers" );
    same( y, n, "strings" );
}
/* ---- sums and products of the heads of several streams ---- */
struct Arith : public raft::kernel
{
    const long n;
    explicit Arith( long k ) : raft::kernel(), n( k )
    {
        for( long i = 0; i < n; i++ ) input.addPort< uint64_t >( std::to_string( i ) );
        output.addPort< uint64_t >( "sum", "product" );
    }
    virtual raft::kstatus run()
    {
        dawdle( PACE );
        /* to be taken twice: once in a sum, once in a product */
        output[ "sum" ].push< uint64_t >( add() );
        output[ "product" ].push< uint64_t >( mul() );
        sim::progress();
        return raft::proceed;
    }
    uint64_t add()
    {
        switch( n ) {
        case 1: return raft::sum< uint64_t >( input[ "0" ] );
        case 2: return raft::sum< uint64_t >( input[ "0" ], input[ "1" ] );
        case 3: return raft::sum< uint64_t >( input[ "0" ], input[ "1" ], input[ "2" ] );
        default: return raft::sum< uint64_t >( input[ "0" ], input[ "1" ], input[ "2" ], input[ "3" ] );
        }
    }
    uint64_t mul()
    {
        switch( n ) {
        case 1: return raft::mult< uint64_t >( input[ "0" ] );
        case 2: return raft::mult< uint64_t >( input[ "0" ], input[ "1" ] );
        case 3: return raft::mult< uint64_t >( input[ "0" ], input[ "1" ], input[ "2" ] );
        default: return raft::mult< uint64_t >( input[ "0" ], input[ "1" ], input[ "2" ], input[ "3" ] );
        }
    }
};
void arithmetic( const sim::Cfg &c )
{
    const long n = 2 * c[ "items" ], ports = c[ "ports" ];
    std::vector< std::vector< uint64_t > > in( (size_t) ports );
    for( long p = 0; p < ports; p++ ) for( long i = 0; i < n; i++ ) in[ (size_t) p ].push_back( 1 + scramble( (uint64_t)( p * 1000 + i ) ) % 1000 );
    std::vector< uint64_t > sums, products;
    {
        using reader = raft::readeach< uint64_t, std::vector< uint64_t >::iterator >;
        std::vector< std::unique_ptr< reader > > rd;
        Arith a( ports );
        Gather< uint64_t > gs( sums ), gp( products );
        raft::map m;
        for( long p = 0; p < ports; p++ ) {
            rd.emplace_back( new reader( raft::read_each< uint64_t >( in[ (size_t) p ].begin(), in[ (size_t) p ].end() ) ) );
            m.link( rd.back().get(), "0", &a, std::to_string( p ), cap_of( c, (int) p ) );
        }
        m.link( &a, "sum", &gs, "0", cap_of( c, 5 ) );
        m.link( &a, "product", &gp, "0", cap_of( c, 6 ) );
        execute( m, c[ "mode" ] );
    }
    if( (long) sums.size() != n / 2 || (long) products.size() != n / 2 )
        VIOLATES( "P14 P07 P18", "wrong-count", "%zu sums and %zu products of %ld", sums.size(), products.size(), n / 2 );
    for( long i = 0; i < n / 2; i++ ) {
        uint64_t s = 0, m = 1;
        for( auto &v : in ) { s += v[ (size_t) i * 2 ]; m *= v[ (size_t) i * 2 + 1 ]; }
        if( s != sums[ (size_t) i ] ) VIOLATES( "P14 P07 P18", "wrong-element", "sum %ld of %ld streams is %lu instead of %lu", i, ports, sums[ (size_t) i ], s );
        if( m != products[ (size_t) i ] ) VIOLATES( "P14 P07 P18", "wrong-element", "product %ld of %ld streams is %lu instead of %lu", i, ports, products[ (size_t) i ], m );
    }
    sim::probe( "sums and products", (uint64_t) n );
}
void run( const sim::Cfg &c )
{
    lives_reset();
    PACE = c[ "pace" ];
    const uint64_t mark = sim::heap_mark();
    MOST = 64 + 64 * c[ "items" ];
    switch( c[ "what" ] ) {
    case 0:
        switch( c[ "type" ] ) {
        case 0: containers< uint64_t >( c ); break;
        case 1: containers< uint32_t >( c ); break;
        case 2: containers< Obj >( c ); break;
        case 3: containers< double >( c ); break;
        default: containers< std::string >( c ); break;
        }
        break;
    case 1: printing< '\n' >( c ); break;
    case 2: printing< '\0' >( c ); break;
    case 3: generating( c ); break;
    case 4: functions( c ); break;
    default: arithmetic( c ); break;
    }
    if( lives.live ) VIOLATES( "P14 P08", "objects-left", "%ld objects are left of %ld", lives.live, lives.made );
    app_over( mark );
}
void gen( sim::Rng &r, sim::Cfg &c )
{
    static const long whats[] = { 0, 0, 0, 0, 1, 2, 3, 4, 5 };
    c.def( "what", r.pick( whats ), 0 );
    c.def( "type", (long) r.below( 5 ), 0 );
    c.def( "from", (long) r.below( 6 ), 0 );
    c.def( "ops", (long) r.below( 2 ), 0 );
    c.def( "hops", (long) r.below( 4 ), 0 );
    c.def( "copy", (long) r.below( 3 ) == 0, 0 );
    c.def( "preset", (long) r.below( 2 ), 0 );
    c.def( "ports", 1 + (long) r.below( 4 ), 1 );
    c.def( "items", r.below( 10 ) ? (long) r.below( 24 ) : r.range( 0, 150 ), 0 );
    c.def( "caps", r.below( 4 ) ? 1 + (long) r.below( 10000 ) : 0, 0 );
    static const long modes[] = { 0, 0, 1, 2, 2 };
    c.def( "mode", r.pick( modes ), 0 );
    c.def( "pace", r.below( 2 ) ? 0 : 1 + (long) r.below( 8 ), 0 );
}
void gen_out_stdkernels( sim::Rng &r, sim::Cfg &c ) { gen( r, c ); c.def( "early", (long) r.below( 2 ), 0 ); }
void run_out_stdkernels( const sim::Cfg &c ) { run_out( run, c ); }
sim::Register r18stdkernels( { "P18", "stdkernels.exhaustion", gen_out_stdkernels, run_out_stdkernels, sim::SCHED_FAULTS | FBIT( sim::F_ALLOC ) | FBIT( sim::F_THREAD ), 2 } );
sim::Register r06( { "P06", "stdkernels.ends", gen, run, sim::SCHED_FAULTS, 1 } );
sim::Register r07( { "P07", "stdkernels.result", gen, run, sim::SCHED_FAULTS, 1 } );
sim::Register r08( { "P08", "stdkernels.life", gen, run, sim::SCHED_FAULTS, 2 } );
sim::Register r14( { "P14", "stdkernels", gen, run, sim::SCHED_FAULTS, 10 } );
}
