/* ports.cpp - P19: selecting among inputs; P20: arrays handed out in place. */
#include "graph.hpp"
#include <raftio>
#include <set>
#include <select.tcc>
#include <foreach.tcc>

namespace
{
long PACE;
void dawdle() { if( PACE && sim::wbelow( (uint64_t) PACE ) == 0 ) sim::sleep_ns( 1000ull << sim::wbelow( 14 ) ); }
std::string pname( long i ) { return std::string( 1, (char)( 'a' + i ) ); }
void execute( raft::map &m, long mode )
{
    may_run_out( [&] {
    switch( mode ) {
    case 0: m.exe< partition_dummy, simple_schedule, stdalloc, no_parallel >(); break;
    case 1: m.exe(); break;
    default: m.exe< partition_dummy, simple_schedule, hostile_alloc, no_parallel >(); break;
    }
    } );
}
size_t cap_of( const sim::Cfg &c, int i )
{
    static const long small[] = { 1, 1, 2, 3, 4, 5, 8, 16 };
    const long k = c[ "caps" ];
    return k == 0 ? 0 : (size_t) small[ scramble( (uint64_t)( k * 17 + i ) ) % 8 ];
}
/* ----------------------------------------------------------------- select */
constexpr int MAXSEL = 3, MAXIN = 12;
struct
{
    long begun[ MAXSEL ][ MAXIN ], sent[ MAXSEL ][ MAXIN ], taken[ MAXSEL ][ MAXIN ];
    long calls, empty;
} S;
SIM_HOST uint64_t item_of( int s, int i, long k ) { return (uint64_t) s * 1000000007ull + (uint64_t) i * 1000003ull + (uint64_t) k; }

template < class T > struct Feed : public raft::kernel
{
    const int s, i; const long n; long k = 0; const long burst;
    Feed( int a, int b, long m, long bu ) : raft::kernel(), s( a ), i( b ), n( m ), burst( bu ) { output.addPort< T >( "0" ); }
    virtual raft::kstatus run()
    {
        dawdle();
        for( long b = 0; b < burst && k < n; b++, k++ ) {
            T t( GV< T >::make( item_of( s, i, k ) ) );
            S.begun[ s ][ i ]++;
            output[ "0" ].template push< T >( t );
            done();
        }
        return k >= n ? raft::stop : raft::proceed;
    }
    SIM_HOST void done() { sim::fence(); S.sent[ s ][ i ]++; sim::progress(); }
};
template < class T > struct Sel : public raft::kernel
{
    const int s; const long k, style, part;
    Sel( int a, long b, long st, long pt ) : raft::kernel(), s( a ), k( b ), style( st ), part( pt )
    {
        std::string nm[ MAXIN ];
        for( long i = 0; i < k; i++ ) nm[ i ] = pname( i );
        declare_ports< T >( input, nm, k, (unsigned)( style * 3 + part ) );
    }
    /** chooses among the inputs lo .. hi-1 **/
    void once( long lo, long hi )
    {
        long waiting[ MAXIN ];
        look( lo, hi, waiting );
        auto r = [&]() -> raft::select_t {
            switch( hi - lo ) {
            case 1: return raft::select::in( input, pname( lo ) );
            case 2: return raft::select::in( input, pname( lo ), pname( lo + 1 ) );
            case 3: return raft::select::in( input, pname( lo ), pname( lo + 1 ), pname( lo + 2 ) );
            case 4: return raft::select::in( input, pname( lo ), pname( lo + 1 ), pname( lo + 2 ), pname( lo + 3 ) );
            case 5: return raft::select::in( input, pname( lo ), pname( lo + 1 ), pname( lo + 2 ), pname( lo + 3 ), pname( lo + 4 ) );
            case 6: return raft::select::in( input, "a", "b", "c", "d", "e", "f" );
            case 9: return raft::select::in( input, "a", "b", "c", "d", "e", "f", "g", "h", "i" );
            default: return raft::select::in( input, "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l" );
            }
        }();
        FIFO &f( r.second.get() );
        long p = -1;
        for( long i = lo; i < hi; i++ ) if( &input[ pname( i ) ] == &f ) p = i;
        judge( lo, hi, p, (long) r.first, waiting );
        if( r.first == 0 ) return;
        const long n = style == 0 ? 1 : (long) r.first;
        if( style == 2 ) {
            {
                auto w( f.peek_range< T >( (size_t) n ) );
                for( long q = 0; q < n; q++ ) got( p, GV< T >::get( w[ (size_t) q ].ele ), q );
            }
            f.recycle( (size_t) n );
        }
        else for( long q = 0; q < n; q++ ) {
            T t{};
            f.pop< T >( t );
            got( p, GV< T >::get( t ), 0 );
            S.taken[ s ][ p ]++;
        }
        if( style == 2 ) S.taken[ s ][ p ] += n;
    }
    virtual raft::kstatus run()
    {
        dawdle();
        if( part > 0 && part < k && k <= 5 ) { once( 0, part ); once( part, k ); }
        else if( k <= 6 || k == 9 || k == 12 ) once( 0, k );
        else for( long lo = 0; lo < k; lo += 5 ) once( lo, std::min( k, lo + 5 ) );
        return raft::proceed;
    }
    SIM_HOST void look( long lo, long hi, long *w ) { for( long i = lo; i < hi; i++ ) w[ i ] = S.sent[ s ][ i ] - S.taken[ s ][ i ]; }
    SIM_HOST void judge( long lo, long hi, long p, long n, const long *w )
    {
        S.calls++;
        if( p < 0 ) VIOLATES( "P19", "foreign-port", "select among %ld inputs returned a port that is not one of them", hi - lo );
        if( n > S.begun[ s ][ p ] - S.taken[ s ][ p ] )
            VIOLATES( "P19", "count", "select reports %ld items on input %ld, no more than %ld can be there", n, p, S.begun[ s ][ p ] - S.taken[ s ][ p ] );
        if( n > 0 ) return;
        S.empty++;
        for( long i = lo; i < hi; i++ )
            if( w[ i ] > 0 ) VIOLATES( "P19", "overlooked", "select reports no data although %ld items were waiting on input %ld", w[ i ], i );
    }
    SIM_HOST void got( long p, uint64_t v, long ahead )
    {
        const long at = S.taken[ s ][ p ] + ahead;
        if( v != item_of( s, (int) p, at ) ) VIOLATES( "P19 P07 P18", "wrong-item", "item %ld of input %ld is not what was sent", at, p );
        sim::hist( v );
        sim::progress();
    }
};
template < class T > void selecting( const sim::Cfg &c )
{
    const int ns = (int) c[ "selectors" ];
    const long k = c[ "inputs" ], n = c[ "items" ];
    std::vector< raft::kernel * > own;
    {
        raft::map m;
        for( int s = 0; s < ns; s++ ) {
            auto *x = new Sel< T >( s, k, ( c[ "style" ] + s ) % 3, c[ "part" ] );
            own.push_back( x );
            for( int i = 0; i < k; i++ ) {
                const long cnt = c[ "vary" ] ? (long)( scramble( (uint64_t)( c[ "vary" ] + i * 5 + s ) ) % (uint64_t)( n + 1 ) ) : n;
                auto *f = new Feed< T >( s, i, cnt, c[ "burst" ] );
                own.push_back( f );
                m.link( f, "0", x, pname( i ), cap_of( c, s * MAXIN + i ) );
            }
        }
        execute( m, c[ "mode" ] );
    }
    for( auto *q : own ) delete q;
    for( int s = 0; s < ns; s++ ) for( int i = 0; i < k; i++ )
        if( S.taken[ s ][ i ] != S.sent[ s ][ i ] ) VIOLATES( "P19 P06 P07 P18", "left-over", "%ld of %ld items of input %d were taken", S.taken[ s ][ i ], S.sent[ s ][ i ], i );
    sim::probe( "selections", (uint64_t) S.calls );
    sim::probe( "selections that found nothing", (uint64_t) S.empty );
}
void run_select( const sim::Cfg &c )
{
    lives_reset();
    memset( (void *) &S, 0, sizeof S );
    PACE = c[ "pace" ];
    const uint64_t mark = sim::heap_mark();
    switch( c[ "type" ] ) {
    case 0: selecting< uint64_t >( c ); break;
    case 1: selecting< Pod >( c ); break;
    case 2: selecting< Obj >( c ); break;
    default: selecting< std::string >( c ); break;
    }
    if( lives.live ) VIOLATES( "P19 P08", "objects-left", "%ld objects are left of %ld", lives.live, lives.made );
    app_over( mark );
}
void gen_select( sim::Rng &r, sim::Cfg &c )
{
    c.def( "type", (long) r.below( 4 ), 0 );
    c.def( "selectors", r.below( 3 ) ? 1 : 1 + (long) r.below( MAXSEL ), 1 );
    static const long many[] = { 6, 9, 12 };
    const long k = r.below( 10 ) ? 1 + (long) r.below( 5 ) : r.pick( many );
    c.def( "inputs", k, 1 );
    c.def( "part", k > 5 ? 0 : (long) r.below( 4 ), 0 );
    c.def( "items", (long) r.below( 16 ), 0 );
    c.def( "vary", r.below( 2 ) ? 1 + (long) r.below( 1000 ) : 0, 0 );
    c.def( "burst", 1 + (long) r.below( 4 ), 1 );
    c.def( "style", (long) r.below( 3 ), 0 );
    c.def( "caps", r.below( 4 ) ? 1 + (long) r.below( 10000 ) : 0, 0 );
    static const long modes[] = { 0, 0, 1, 2, 2 };
    c.def( "mode", r.pick( modes ), 0 );
    c.def( "pace", r.below( 2 ) ? 0 : 1 + (long) r.below( 8 ), 0 );
}
/* ------------------------------------------------------------ arrays in place */
constexpr int MAXEL = 300, MAXPARTS = 16;
struct
{
    long n, ports, quits;                     /* quits: workers that stop before the end of their part */
    int  seen[ MAXEL ];
    long first[ MAXPARTS ], next[ MAXPARTS ];
    bool wrote[ MAXEL ];
} A;
template < class T > struct Slice : public raft::kernel
{
    const int no; const long style; T * const base; const bool pass;
    const long lo, hi, quit;                  /* its array is [lo, hi) of the whole; elements it takes before it stops, -1: all */
    Slice( int a, long st, T *b, bool p, long l, long h, long q ) : raft::kernel(), no( a ), style( st ), base( b ), pass( p ), lo( l ), hi( h ), quit( q )
    {
        input.addPort< T >( "0" );
        if( pass ) output.addPort< T >( "0" );
    }
    long took = 0;
    SIM_HOST void saw( const T *at, uint64_t v, bool in_place )
    {
        long i = A.next[ no ];
        if( in_place ) {
            if( at < base + lo || at >= base + hi ) VIOLATES( "P20", "not-in-place", "output %d: an element is not seen in the array", no );
            const long q = (long)( at - base );
            if( i >= 0 && q != i ) VIOLATES( "P20", "order", "output %d: element %ld follows element %ld", no, q, i - 1 );
            i = q;
        }
        else if( i < 0 ) i = where( v );
        if( i < lo || i >= hi ) VIOLATES( "P20", "range", "output %d goes beyond the array", no );
        if( v != value( i ) ) VIOLATES( "P20", "wrong-element", "output %d: element %ld does not have the value it had in the array", no, i );
        if( A.first[ no ] < 0 ) A.first[ no ] = i;
        A.next[ no ] = i + 1;
        took++;
        if( A.seen[ i ]++ ) VIOLATES( "P20", "twice", "element %ld was handed out twice", i );
        sim::hist( (uint64_t) i * MAXPARTS + (uint64_t) no );
        sim::progress();
    }
    SIM_HOST static uint64_t value( long i ) { return scramble( (uint64_t) i + 99 ) >> 1; }
    SIM_HOST static long where( uint64_t v ) { for( long i = 0; i < A.n; i++ ) if( value( i ) == v ) return i; return -1; }
    SIM_HOST void position( size_t p )
    {
        if( A.first[ no ] >= 0 && (long) p != A.first[ no ] - lo )
            VIOLATES( "P20", "position", "output %d: the part is said to start at %zu, its first element is number %ld", no, p, A.first[ no ] - lo );
        sim::probe( "positions compared" );
    }
    void write( T &t )
    {
        t = GV< T >::make( GV< T >::get( t ) ^ 0x5555 );
        mark( &t );
    }
    SIM_HOST void mark( const T *t ) { if( t >= base && t < base + A.n ) A.wrote[ t - base ] = true; }
    virtual raft::kstatus run()
    {
        dawdle();
        if( quit >= 0 && took >= quit ) return raft::stop;
        auto &p( input[ "0" ] );
        const long s = style == 5 ? (long) sim::wbelow( 5 ) : style;
        switch( s ) {
        case 0: {
            T &t( p.template peek< T >() );
            saw( &t, GV< T >::get( t ), true );
            write( t );
            if( pass ) output[ "0" ].template push< T >( t );
            p.unpeek();
            p.recycle();
            break;
        }
        case 1: {
            T t{};
            p.template pop< T >( t );
            saw( &t, GV< T >::get( t ), false );
            if( pass ) { t = GV< T >::make( GV< T >::get( t ) ^ 0x5555 ); output[ "0" ].template push< T >( t ); }
            break;
        }
        case 2: case 3: {
            size_t n = p.size();
            if( quit >= 0 && n > (size_t)( quit - took ) ) n = (size_t)( quit - took );
            if( s == 3 && n > 1 ) n = 1 + sim::wbelow( n );
            if( n == 0 ) break;
            {
                auto w( p.template peek_range< T >( n ) );
                for( size_t i = 0; i < n; i++ ) {
                    auto e = w[ i ];
                    saw( &e.ele, GV< T >::get( e.ele ), true );
                    write( e.ele );
                    if( pass ) output[ "0" ].template push< T >( e.ele );
                }
                position( w.getindex() );
            }
            p.recycle( n );
            break;
        }
        default: {
            auto h( p.template pop_s< T >() );
            saw( &*h, GV< T >::get( *h ), true );
            if( pass ) { T t( GV< T >::make( GV< T >::get( *h ) ^ 0x5555 ) ); output[ "0" ].template push< T >( t ); }
            break;
        }
        }
        return raft::proceed;
    }
};
template < class T > struct Collect : public raft::kernel
{
    std::vector< uint64_t > &to;
    explicit Collect( std::vector< uint64_t > &v ) : raft::kernel(), to( v ) { input.addPort< T >( "0" ); }
    virtual raft::kstatus run()
    {
        dawdle();
        T t{};
        input[ "0" ].template pop< T >( t );
        add( GV< T >::get( t ) );
        return raft::proceed;
    }
    SIM_HOST void add( uint64_t v ) { sim::HostScope h; to.push_back( v ); sim::progress(); }
};
template < class T > SIM_HOST void covered( const T *arr, const std::vector< uint64_t > *passed, bool pass )
{
    sim::HostScope h;
    for( long i = 0; i < A.n; i++ ) {
        if( A.seen[ i ] != 1 && ! ( A.quits && A.seen[ i ] == 0 ) ) VIOLATES( "P20 P07 P18", "not-covered", "element %ld was handed out %d times", i, A.seen[ i ] );
        const uint64_t want = Slice< T >::value( i ) ^ ( A.wrote[ i ] ? 0x5555u : 0u );
        if( GV< T >::get( arr[ i ] ) != want ) VIOLATES( "P20 P07 P18", "array", "element %ld of the array does not hold what was %s it", i, A.wrote[ i ] ? "written through" : "in" );
    }
    if( pass ) for( long p = 0; p < A.ports; p++ ) {
        const auto &v = passed[ p ];
        const long len = A.first[ p ] < 0 ? 0 : A.next[ p ] - A.first[ p ];
        if( (long) v.size() != len ) VIOLATES( "P20 P07 P18", "passed-on", "output %ld: %zu of %ld elements were passed on", p, v.size(), len );
        for( long i = 0; i < len; i++ ) if( v[ (size_t) i ] != ( Slice< T >::value( A.first[ p ] + i ) ^ 0x5555 ) )
            VIOLATES( "P20 P07 P18", "passed-on", "output %ld: element %ld was passed on wrongly", p, i );
    }
    sim::probe( "elements handed out", (uint64_t) A.n );
}
template < class T > void arrays( const sim::Cfg &c )
{
    const long n = A.n, ports = A.ports;
    T *arr = static_cast< T * >( malloc( sizeof( T ) * (size_t)( n ? n : 1 ) ) );
    if( arr == nullptr ) throw std::bad_alloc();
    for( long i = 0; i < n; i++ ) new( &arr[ i ] ) T( GV< T >::make( Slice< T >::value( i ) ) );
    std::vector< uint64_t > passed[ MAXPARTS ];
    const bool pass = c[ "pass" ];
    std::vector< raft::kernel * > own;
    {
        /* the array as one, or as two whose kernels are in the same application */
        const long cut = c[ "two" ] && ports > 1 ? n * ( c[ "two" ] % 8 ) / 7 : n, half = cut < n ? 1 + c[ "two" ] / 8 % ( ports - 1 ) : ports;
        raft::for_each< T > fe( arr, (size_t) cut, (size_t) half );
        std::unique_ptr< raft::for_each< T > > fe2;
        if( cut < n ) {
            fe2.reset( new raft::for_each< T >( arr + cut, (size_t)( n - cut ), (size_t)( ports - half ) ) );
            sim::probe( "arrays in the same application" );
        }
        raft::map m;
        for( long p = 0; p < ports; p++ ) {
            const bool second = p >= half;
            auto &f( second ? *fe2 : fe );
            const std::string out( std::to_string( second ? p - half : p ) );
            const long q = c[ "quit" ] && ( c[ "quit" ] >> ( p % 4 ) & 1 ) ? c[ "quit" ] / 16 % 32 : -1;
            if( q >= 0 ) A.quits++;
            auto *s = new Slice< T >( (int) p, c[ "ooo" ] ? 1 : ( c[ "style" ] + p * c[ "mixed" ] ) % 6, arr, pass, second ? cut : 0, second ? n : cut, q );
            own.push_back( s );
            if( c[ "ooo" ] ) m.template link< raft::order::out >( &f, out, s, "0" );
            else if( c[ "form" ] == 1 ) m += f[ out ] >> *s;
            else if( c[ "form" ] == 2 && ( second ? ports - half : half ) == 1 ) m += f >> *s;
            else m.link( &f, out, s, "0" );
            if( pass ) {
                auto *k = new Collect< T >( passed[ p ] );
                own.push_back( k );
                if( c[ "ooo" ] ) m.template link< raft::order::out >( s, "0", k, "0", cap_of( c, (int) p ) );
                else m.link( s, "0", k, "0", cap_of( c, (int) p ) );
            }
        }
        execute( m, c[ "mode" ] ? 1 : 0 );
    }
    for( auto *k : own ) delete k;
    covered< T >( arr, passed, pass );
    for( long i = 0; i < n; i++ ) arr[ i ].~T();
    free( arr );
}
void run_arrays( const sim::Cfg &c )
{
    lives_reset();
    memset( (void *) &A, 0, sizeof A );
    A.n = c[ "n" ]; A.ports = c[ "ports" ];
    for( int i = 0; i < MAXPARTS; i++ ) A.first[ i ] = A.next[ i ] = -1;
    PACE = c[ "pace" ];
    const uint64_t mark = sim::heap_mark();
    switch( c[ "type" ] ) {
    case 0: arrays< uint64_t >( c ); break;
    case 1: arrays< Pod >( c ); break;
    case 2: arrays< Obj >( c ); break;
    default: arrays< std::string >( c ); break;
    }
    if( lives.live ) VIOLATES( "P20 P08", "objects-left", "%ld objects are left of %ld", lives.live, lives.made );
    app_over( mark );
}
void gen_arrays( sim::Rng &r, sim::Cfg &c )
{
    c.def( "type", (long) r.below( 4 ), 0 );
    c.def( "n", r.below( 8 ) ? (long) r.below( 40 ) : (long) r.below( MAXEL ), 0 );
    c.def( "ports", r.below( 10 ) ? 1 + (long) r.below( 6 ) : 7 + (long) r.below( MAXPARTS - 6 ), 1 );
    c.def( "style", (long) r.below( 6 ), 0 );
    c.def( "mixed", (long) r.below( 2 ), 0 );
    c.def( "pass", (long) r.below( 2 ), 0 );
    c.def( "caps", r.below( 4 ) ? 1 + (long) r.below( 10000 ) : 0, 0 );
    c.def( "mode", (long) r.below( 2 ), 0 );
    c.def( "pace", r.below( 2 ) ? 0 : 1 + (long) r.below( 8 ), 0 );
    c.def( "two", r.below( 4 ) ? 0 : 1 + (long) r.below( 1000 ), 0 );
    c.def( "form", (long) r.below( 3 ), 0 );
    c.def( "quit", r.below( 5 ) ? 0 : (long) r.below( 512 ), 0 );
    c.def( "ooo", r.below( 8 ) == 0, 0 );
}
void gen_out_select( sim::Rng &r, sim::Cfg &c ) { gen_select( r, c ); c.def( "early", (long) r.below( 2 ), 0 ); }
void run_out_select( const sim::Cfg &c ) { run_out( run_select, c ); }
void gen_out_arrays( sim::Rng &r, sim::Cfg &c ) { gen_arrays( r, c ); c.def( "early", (long) r.below( 2 ), 0 ); }
void run_out_arrays( const sim::Cfg &c ) { run_out( run_arrays, c ); }
sim::Register r18arrays( { "P18", "arrays.exhaustion", gen_out_arrays, run_out_arrays, sim::SCHED_FAULTS | FBIT( sim::F_ALLOC ) | FBIT( sim::F_THREAD ), 2 } );
sim::Register r18select( { "P18", "select.exhaustion", gen_out_select, run_out_select, sim::SCHED_FAULTS | FBIT( sim::F_ALLOC ) | FBIT( sim::F_THREAD ), 2 } );
sim::Register r06s( { "P06", "select.ends", gen_select, run_select, sim::SCHED_FAULTS, 1 } );
sim::Register r08s( { "P08", "select.life", gen_select, run_select, sim::SCHED_FAULTS, 1 } );
sim::Register r06a( { "P06", "arrays.ends", gen_arrays, run_arrays, sim::SCHED_FAULTS, 1 } );
sim::Register r07a( { "P07", "arrays.result", gen_arrays, run_arrays, sim::SCHED_FAULTS, 1 } );
sim::Register r08a( { "P08", "arrays.life", gen_arrays, run_arrays, sim::SCHED_FAULTS, 1 } );
sim::Register r19( { "P19", "select", gen_select, run_select, sim::SCHED_FAULTS, 10 } );
sim::Register r20( { "P20", "arrays", gen_arrays, run_arrays, sim::SCHED_FAULTS, 10 } );
}
