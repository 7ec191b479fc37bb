/* wide.cpp - one kernel with many inputs and many outputs, more than the
 * random graphs have: activation, draining and closing over all of them. */
#include "graph.hpp"
#include <raftio>

namespace
{
constexpr int MAXW = 20;
long PACE;
void dawdle() { if( PACE && sim::wbelow( (uint64_t) PACE ) == 0 ) sim::sleep_ns( 1000ull << sim::wbelow( 14 ) ); }
struct
{
    long begun[ MAXW ], sent[ MAXW ], taken[ MAXW ];        /* the hub's inputs */
    long obegun[ MAXW ], osent[ MAXW ], otaken[ MAXW ];     /* its outputs */
    uint64_t osum[ MAXW ];
    bool fed[ MAXW ], inside;
    long runs;
} W;
uint64_t value( int i, long k ) { return (uint64_t) i * 1000003ull + (uint64_t) k; }
std::string pname( long i ) { char b[ 8 ]; snprintf( b, sizeof b, "p%02ld", i ); return b; }

template < class T > struct Feed : public raft::kernel
{
    const int i; const long n, burst; long k = 0;
    Feed( int a, long m, long bu ) : raft::kernel(), i( a ), n( m ), burst( bu ) { output.addPort< T >( "0" ); }
    virtual raft::kstatus run()
    {
        dawdle();
        for( long b = 0; b < burst && k < n; b++, k++ ) {
            T t( GV< T >::make( value( i, k ) ) );
            W.begun[ i ]++;
            output[ "0" ].template push< T >( t );
            done();
        }
        if( k < n ) return raft::proceed;
        stops();
        return raft::stop;
    }
    SIM_HOST void done() { sim::fence(); W.sent[ i ]++; sim::progress(); }
    SIM_HOST void stops()
    {
        if( W.fed[ i ] ) VIOLATES( "P11", "after-stop", "source %d is activated after it asked to stop", i );
        W.fed[ i ] = true;
    }
};
template < class T > struct Hub : public raft::kernel
{
    const int nin, nout; const bool all; const long take; long at = 0;
    Hub( int a, int b, bool al, long tk, unsigned how ) : raft::kernel(), nin( a ), nout( b ), all( al ), take( tk )
    {
        std::string nm[ MAXW ];
        for( int i = 0; i < MAXW; i++ ) nm[ i ] = pname( i );
        declare_ports< T >( input, nm, nin, how );
        declare_ports< T >( output, nm, nout, how / 4 );
        if( all ) sched_behav = raft::all_port;
    }
    virtual raft::kstatus run()
    {
        enter();
        dawdle();
        if( all )
            for( int i = 0; i < nin; i++ ) one( input[ pname( i ) ], i );
        else {
            int i = 0;
            for( auto &port : input ) {
                const long s = (long) port.size();
                for( long k = 0; k < s && k < take; k++ ) one( port, i );
                i++;
            }
        }
        W.inside = false;
        return raft::proceed;
    }
    void one( FIFO &f, int i )
    {
        T t{};
        f.pop< T >( t );
        const uint64_t v = GV< T >::get( t );
        took( i, v );
        if( nout ) {
            const int o = (int)( at++ % nout );
            W.obegun[ o ]++;
            output[ pname( o ) ].template push< T >( t );
            sent( o, v );
        }
    }
    SIM_HOST void enter()
    {
        if( W.inside ) VIOLATES( "P11", "overlap", "the kernel is activated while its previous activation is still running" );
        W.inside = true;
        W.runs++;
        int with = 0;
        for( int i = 0; i < nin; i++ ) with += W.begun[ i ] > W.taken[ i ];
        if( ! with ) VIOLATES( "P11", "no-data", "a kernel of %d inputs was activated without any data waiting", nin );
        if( all && with < nin ) VIOLATES( "P11", "no-data", "a kernel that needs data on all of its inputs was activated with data on %d of %d", with, nin );
    }
    SIM_HOST void took( int i, uint64_t v )
    {
        if( v != value( i, W.taken[ i ] ) ) VIOLATES( "P07 P01 P05 P06", "wrong-item", "item %ld of input %d is not the one sent", W.taken[ i ], i );
        W.taken[ i ]++;
        sim::hist( v );
        sim::progress();
    }
    SIM_HOST void sent( int o, uint64_t v ) { sim::fence(); W.osent[ o ]++; W.osum[ o ] += scramble( v + (uint64_t) W.osent[ o ] ); }
};
template < class T > struct Drain : public raft::kernel
{
    const int o;
    uint64_t sum = 0;
    long n = 0;
    explicit Drain( int a ) : raft::kernel(), o( a ) { input.addPort< T >( "0" ); }
    virtual raft::kstatus run()
    {
        dawdle();
        T t{};
        input[ "0" ].template pop< T >( t );
        took( GV< T >::get( t ) );
        return raft::proceed;
    }
    SIM_HOST void took( uint64_t v )
    {
        n++;
        sum += scramble( v + (uint64_t) n );
        W.otaken[ o ]++;
        if( n > W.obegun[ o ] ) VIOLATES( "P07 P01", "phantom-item", "output %d delivered %ld items, only %ld were sent", o, n, W.obegun[ o ] );
        sim::progress();
    }
};
template < class T > void wide( const sim::Cfg &c )
{
    const int nin = (int) c[ "ins" ], nout = (int) c[ "outs" ];
    const bool all = c[ "all" ];
    std::vector< raft::kernel * > own;
    std::vector< Drain< T > * > dr;
    long want[ MAXW ];
    {
        raft::map m;
        auto *h = new Hub< T >( nin, nout, all, c[ "take" ], (unsigned) c[ "how" ] );
        own.push_back( h );
        for( int i = 0; i < nin; i++ ) {
            want[ i ] = c[ "vary" ] && ! all ? (long)( scramble( (uint64_t)( c[ "vary" ] + i * 5 ) ) % (uint64_t)( c[ "items" ] + 1 ) ) : c[ "items" ];
            auto *f = new Feed< T >( i, want[ i ], c[ "burst" ] );
            own.push_back( f );
            m.link( f, "0", h, pname( i ), (size_t) c[ "cap" ] );
        }
        for( int o = 0; o < nout; o++ ) {
            auto *d = new Drain< T >( o );
            own.push_back( d );
            dr.push_back( d );
            m.link( h, pname( o ), d, "0", (size_t) c[ "cap" ] );
        }
        switch( c[ "mode" ] ) {
        case 0: m.exe< partition_dummy, simple_schedule, stdalloc, no_parallel >(); break;
        default: m.exe(); break;
        }
    }
    if( W.inside ) VIOLATES( "P06 P11", "still-running", "the kernel is still inside an activation when the execution has returned" );
    for( int i = 0; i < nin; i++ ) {
        if( W.sent[ i ] != want[ i ] || ! W.fed[ i ] ) VIOLATES( "P06 P07 P11", "incomplete", "source %d sent %ld of %ld items", i, W.sent[ i ], want[ i ] );
        if( W.taken[ i ] != want[ i ] ) VIOLATES( "P06 P07 P05", "unconsumed", "%ld of %ld items of input %d of %d were consumed when the execution returned", W.taken[ i ], want[ i ], i, nin );
    }
    for( int o = 0; o < nout; o++ ) {
        if( W.otaken[ o ] != W.osent[ o ] ) VIOLATES( "P06 P07 P05", "unconsumed", "%ld of %ld items of output %d of %d were consumed when the execution returned", W.otaken[ o ], W.osent[ o ], o, nout );
        if( dr[ (size_t) o ]->sum != W.osum[ o ] ) VIOLATES( "P07", "wrong-result", "the items received from output %d are not those sent", o );
    }
    for( auto *q : own ) delete q;
    if( nin > 8 ) sim::probe( "kernels of more than eight inputs" );
    if( nout > 8 ) sim::probe( "kernels of more than eight outputs" );
}
void run_wide( const sim::Cfg &c )
{
    lives_reset();
    memset( (void *) &W, 0, sizeof W );
    PACE = c[ "pace" ];
    const uint64_t mark = sim::heap_mark();
    switch( c[ "type" ] ) {
    case 0: wide< uint64_t >( c ); break;
    case 1: wide< Obj >( c ); break;
    default: wide< std::string >( c ); break;
    }
    if( lives.live ) VIOLATES( "P08", "objects-left", "%ld objects are left of %ld", lives.live, lives.made );
    app_over( mark );
}
void gen_wide( sim::Rng &r, sim::Cfg &c )
{
    c.def( "type", (long) r.below( 3 ), 0 );
    c.def( "ins", r.below( 3 ) ? 3 + (long) r.below( 8 ) : 1 + (long) r.below( MAXW ), 1 );
    c.def( "outs", r.below( 2 ) ? 0 : 1 + (long) r.below( r.below( 3 ) ? 4 : MAXW ), 0 );
    c.def( "all", (long) r.below( 2 ), 0 );
    c.def( "take", 1 + (long) r.below( 4 ), 1 );
    c.def( "items", r.below( 4 ) ? 1 + (long) r.below( 6 ) : (long) r.below( 30 ), 0 );
    c.def( "vary", r.below( 2 ) ? 0 : 1 + (long) r.below( 1000 ), 0 );
    c.def( "burst", 1 + (long) r.below( 4 ), 1 );
    static const long caps[] = { 0, 1, 1, 2, 3, 8, 64 };
    c.def( "cap", r.pick( caps ), 0 );
    c.def( "pace", r.below( 2 ) ? 0 : 1 + (long) r.below( 20 ), 0 );
    c.def( "how", (long) r.below( 16 ), 0 );
    c.def( "mode", (long) r.below( 2 ), 0 );
}
const unsigned FL = sim::SCHED_FAULTS;
sim::Register w11( { "P11", "wide.activation", gen_wide, run_wide, FL, 3 } );
sim::Register w06( { "P06", "wide.ends", gen_wide, run_wide, FL, 3 } );
sim::Register w05( { "P05", "wide.closing", gen_wide, run_wide, FL, 2 } );
sim::Register w07( { "P07", "wide.result", gen_wide, run_wide, FL, 2 } );
}
