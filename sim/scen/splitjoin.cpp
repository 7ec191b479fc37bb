/* splitjoin.cpp - P12: split and join kernels as part of whole applications. */
#include "graph.hpp"

namespace
{
/* number back from the item */
template < class T > struct Id;
template <> struct Id< uint64_t > { static long of( const uint64_t &v, long n ) { for( long i = 0; i < n; i++ ) if( Item< uint64_t >::is( v, (uint64_t) i ) ) return i; return -1; } };
template <> struct Id< uint32_t > { static long of( const uint32_t &v, long n ) { for( long i = 0; i < n; i++ ) if( Item< uint32_t >::is( v, (uint64_t) i ) ) return i; return -1; } };
template <> struct Id< Pod > { static long of( const Pod &v, long n ) { return v.id < (uint64_t) n && Item< Pod >::is( v, v.id ) ? (long) v.id : -1; } };
template <> struct Id< Obj > { static long of( const Obj &v, long n ) { return v.id < (uint64_t) n && Item< Obj >::is( v, v.id ) ? (long) v.id : -1; } };
template <> struct Id< std::string >
{
    SIM_HOST static long of( const std::string &v, long n )
    {
        sim::HostScope h;
        if( v.size() < 6 ) return -1;
        const long i = atol( v.c_str() + 5 );
        return i >= 0 && i < n && Item< std::string >::is( v, (uint64_t) i ) ? i : -1;
    }
};

constexpr int MAXB = 24, MAXI = 400;
struct
{
    long n;                      /* items in all */
    bool signals;
    long want_sig[ MAXI ];
    int  got[ MAXI ];            /* how often it arrived at its end */
    int  branch[ MAXI ];         /* which branch it took, -1 unknown */
    long last[ MAXB ];           /* split: last item seen on a branch; join: last item of an input seen at the end */
    int  origin[ MAXI ];         /* join: input it came by */
    long arrived, pace;
    unsigned branches;
} W;
SIM_HOST long sig_of( long i ) { return W.signals ? (long)( scramble( (uint64_t) i * 7 + 5 ) % 4 ) : 0; }
SIM_HOST void on_branch( int b, long id, long sig, bool end )
{
    if( id < 0 ) VIOLATES( "P12 P07 P18", "damaged", "branch %d delivers an item that was never sent", b );
    if( sig != sig_of( id ) ) VIOLATES( "P12 P02", "signal", "item %ld came down branch %d with signal %ld instead of %ld", id, b, sig, sig_of( id ) );
    if( id <= W.last[ b ] ) VIOLATES( "P12 P07 P18", "order", "branch %d delivers item %ld after item %ld", b, id, W.last[ b ] );
    W.last[ b ] = id;
    if( W.branch[ id ] >= 0 ) VIOLATES( "P12 P07 P18", "duplicated", "item %ld came down branch %d and branch %d", id, W.branch[ id ], b );
    W.branch[ id ] = b;
    W.branches |= 1u << b;
    if( end ) { W.got[ id ]++; W.arrived++; }
    sim::progress();
}
SIM_HOST void at_end( long id, long sig )
{
    if( id < 0 ) VIOLATES( "P12 P07 P18", "damaged", "the join delivers an item that was never sent" );
    if( sig != sig_of( id ) ) VIOLATES( "P12 P02", "signal", "item %ld came out of the join with signal %ld instead of %ld", id, sig, sig_of( id ) );
    if( W.got[ id ]++ ) VIOLATES( "P12 P07 P18", "duplicated", "item %ld came out of the join twice", id );
    const int b = W.origin[ id ] >= 0 ? W.origin[ id ] : W.branch[ id ];
    if( b >= 0 ) {
        if( id < W.last[ MAXB / 2 + b ] ) VIOLATES( "P12 P07 P18", "order", "item %ld of input %d came out of the join after item %ld of the same input", id, b, W.last[ MAXB / 2 + b ] );
        W.last[ MAXB / 2 + b ] = id;
    }
    W.arrived++;
    sim::hist( (uint64_t) id );
    sim::progress();
}
void dawdle() { if( W.pace && sim::wbelow( (uint64_t) W.pace ) == 0 ) sim::sleep_ns( 1000ull << sim::wbelow( 14 ) ); }
long sval( raft::signal s ) { return s == raft::none ? 0 : (long) s - (long) raft::MAX_SYSTEM_SIGNAL; }

template < class T > struct Feed : public raft::kernel
{
    long next, step, end;
    Feed( long from, long step, long end ) : raft::kernel(), next( from ), step( step ), end( end ) { output.addPort< T >( "0" ); }
    virtual raft::kstatus run()
    {
        dawdle();
        long k = 1 + (long) sim::wbelow( 4 );
        while( k-- && next < end ) {
            const raft::signal s( usig( (unsigned) sig_of( next ) ) );
            FIFO &f( output[ "0" ] );
            switch( sim::wbelow( 2 ) ) {
            case 0: { const T t( Item< T >::make( (uint64_t) next ) ); f.push< T >( t, s ); break; }
            default: { std::vector< T > v; v.push_back( Item< T >::make( (uint64_t) next ) ); f.insert( v.begin(), v.end(), s ); break; }
            }
            next += step;
            sim::progress();
        }
        return next < end ? raft::proceed : raft::stop;
    }
};
template < class T > long take( FIFO &f, long &sig )
{
    switch( sim::wbelow( 3 ) ) {
    case 0: { auto r( f.pop_s< T >() ); sig = sval( r.sig() ); return Id< T >::of( *r, W.n ); }
    case 1: {
        raft::signal s( raft::none );
        T &r( f.peek< T >( &s ) );
        sig = sval( s );
        const long id = Id< T >::of( r, W.n );
        f.unpeek();
        f.recycle( 1 );
        return id;
    }
    default: {
        raft::signal s( raft::none );
        T t( Item< T >::make( 0 ) );
        f.pop< T >( t, &s );
        sig = sval( s );
        return Id< T >::of( t, W.n );
    }
    }
}
template < class T > struct Branch : public raft::kernel
{
    int  b;
    bool on;                                    /* passes it on, or is the end */
    Branch( int b, bool on ) : raft::kernel(), b( b ), on( on ) { input.addPort< T >( "0" ); if( on ) output.addPort< T >( "0" ); }
    virtual raft::kstatus run()
    {
        dawdle();
        long sig = 0;
        const long id = take< T >( input[ "0" ], sig );
        on_branch( b, id, sig, ! on );
        if( on ) {
            const T t( Item< T >::make( (uint64_t) id ) );
            output[ "0" ].template push< T >( t, usig( (unsigned) sig ) );
        }
        return raft::proceed;
    }
};
template < class T > struct End : public raft::kernel
{
    End() : raft::kernel() { input.addPort< T >( "0" ); }
    virtual raft::kstatus run()
    {
        dawdle();
        long sig = 0;
        const long id = take< T >( input[ "0" ], sig );
        at_end( id, sig );
        return raft::proceed;
    }
};
void execute( raft::map &m, long mode )
{
    may_run_out( [&] {
    switch( mode ) {
    case 0: m.exe< partition_dummy, simple_schedule, stdalloc, no_parallel >(); break;
    case 1: m.exe(); break;
    default: m.exe< partition_dummy, simple_schedule, hostile_alloc, no_parallel >(); break;
    }
    } );
}
/* what the library's kernels call their port i */
std::string pn( int i ) { return std::to_string( i ); }
template < class T > void run_t( const sim::Cfg &c )
{
    const long shape = c[ "shape" ], nb = c[ "branches" ], mode = c[ "mode" ];
    auto cap = [&]( int i ) -> size_t {
        static const long small[] = { 1, 1, 2, 3, 4, 5, 8, 16 };
        const long k = c[ "caps" ];
        if( k == 0 ) return 0;
        return (size_t) small[ scramble( (uint64_t)( k * 17 + i ) ) % 8 ];
    };
    std::vector< raft::kernel * > own;
    auto keep = [&]( raft::kernel *k ) { own.push_back( k ); return k; };
    {
        raft::map m;
        int l = 0;
        /* some of the ports are added after the kernel was made */
        auto split = [&]( int n ) {
            const int later = c[ "added" ] ? 1 + (int)( c[ "added" ] % n ) : 0;
            auto *k = new raft::split< T >( (size_t)( n - later ) );
            keep( k );
            for( int i = 0; i < later; i++ ) k->addPort();
            return (raft::kernel *) k;
        };
        auto join = [&]( int n ) {
            const int later = c[ "added" ] ? 1 + (int)( c[ "added" ] % n ) : 0;
            auto *k = new raft::join< T >( (size_t)( n - later ) );
            keep( k );
            for( int i = 0; i < later; i++ ) k->addPort();
            return (raft::kernel *) k;
        };
        if( shape == 4 ) {                                       /* split, split again; branches; join, join again */
            const int outer = 2 + (int) c[ "caps" ] % 2, inner = 1 + (int)( nb - 1 ) % 4;
            raft::kernel *f = keep( new Feed< T >( 0, 1, W.n ) ), *sp = split( outer ), *jn = join( outer );
            m.link( f, "0", sp, "0", cap( l++ ) );
            for( int o = 0; o < outer; o++ ) {
                raft::kernel *sp2 = split( inner ), *jn2 = join( inner );
                m.link( sp, pn( o ), sp2, "0", cap( l++ ) );
                for( int b = 0; b < inner; b++ ) {
                    raft::kernel *br = keep( new Branch< T >( o * inner + b, true ) );
                    m.link( sp2, pn( b ), br, "0", cap( l++ ) );
                    m.link( br, "0", jn2, pn( b ), cap( l++ ) );
                }
                m.link( jn2, "0", jn, pn( o ), cap( l++ ) );
            }
            m.link( jn, "0", keep( new End< T >() ), "0", cap( l++ ) );
        }
        else if( shape == 0 || shape == 2 || shape == 3 ) {           /* feed, split, branches */
            raft::kernel *f = keep( new Feed< T >( 0, 1, W.n ) ), *sp = split( (int) nb );
            raft::kernel *jn = shape == 0 ? nullptr : join( (int) nb );
            m.link( f, "0", sp, "0", cap( l++ ) );
            for( int b = 0; b < nb; b++ ) {
                if( shape == 3 ) { m.link( sp, pn( b ), jn, pn( b ), cap( l++ ) ); continue; }
                raft::kernel *br = keep( new Branch< T >( b, shape == 2 ) );
                m.link( sp, pn( b ), br, "0", cap( l++ ) );
                if( shape == 2 ) m.link( br, "0", jn, pn( b ), cap( l++ ) );
            }
            if( jn ) m.link( jn, "0", keep( new End< T >() ), "0", cap( l++ ) );
        }
        else {                                                   /* feeds, join */
            raft::kernel *jn = join( (int) nb );
            for( int b = 0; b < nb; b++ ) {
                for( long i = b; i < W.n; i += nb ) W.origin[ i ] = b;
                m.link( keep( new Feed< T >( b, nb, W.n ) ), "0", jn, pn( b ), cap( l++ ) );
            }
            m.link( jn, "0", keep( new End< T >() ), "0", cap( l++ ) );
        }
        execute( m, mode );
    }
    for( auto *k : own ) delete k;
}
SIM_HOST void explain( char *o, size_t n ) { snprintf( o, n, "; %ld of %ld items arrived", W.arrived, W.n ); }
SIM_HOST void verdict()
{
    for( long i = 0; i < W.n; i++ ) {
        if( W.got[ i ] == 0 ) VIOLATES( "P12 P07 P18", "lost", "item %ld of %ld never arrived%s", i, W.n, W.branch[ i ] < 0 ? "" : " after it came down its branch" );
        if( W.got[ i ] > 1 ) VIOLATES( "P12 P07 P18", "duplicated", "item %ld arrived %d times", i, W.got[ i ] );
    }
    int used = 0;
    for( int b = 0; b < MAXB; b++ ) used += ( W.branches >> b ) & 1;
    if( used > 1 ) sim::probe( "splits that used several branches" );
    sim::probe( "items carried", (uint64_t) W.n );
    if( lives.live ) VIOLATES( "P08 P12", "objects-left", "%ld objects are left of %ld", lives.live, lives.made );
}
void run( const sim::Cfg &c )
{
    lives_reset();
    memset( (void *) &W, 0, sizeof W );
    const uint64_t mark = sim::heap_mark();
    W.n = c[ "items" ];
    W.signals = c[ "signals" ];
    W.pace = c[ "pace" ];
    for( int i = 0; i < MAXI; i++ ) W.branch[ i ] = W.origin[ i ] = -1;
    for( int i = 0; i < MAXB; i++ ) W.last[ i ] = -1;
    sim::explain_with( explain );
    switch( c[ "type" ] ) {
    case 0: run_t< uint64_t >( c ); break;
    case 1: run_t< uint32_t >( c ); break;
    case 2: run_t< Pod >( c ); break;
    case 3: run_t< Obj >( c ); break;
    default: run_t< std::string >( c ); break;
    }
    verdict();
    app_over( mark );
}
void gen( sim::Rng &r, sim::Cfg &c )
{
    c.def( "type", (long) r.below( 5 ), 0 );
    c.def( "shape", (long) r.below( 5 ), 0 );
    c.def( "branches", r.below( 12 ) ? 1 + (long) r.below( 4 ) : 5 + (long) r.below( MAXB / 2 - 4 ), 1 );
    c.def( "items", r.below( 10 ) ? 1 + (long) r.below( 24 ) : r.range( 0, 120 ), 0 );
    c.def( "signals", (long) r.below( 2 ), 0 );
    c.def( "added", r.below( 3 ) ? 0 : 1 + (long) r.below( 100 ), 0 );
    c.def( "caps", r.below( 4 ) ? 1 + (long) r.below( 10000 ) : 0, 0 );
    static const long modes[] = { 0, 0, 1, 2, 2 };
    c.def( "mode", r.pick( modes ), 0 );
    c.def( "pace", r.below( 2 ) ? 0 : 1 + (long) r.below( 8 ), 0 );
}
void gen_signals( sim::Rng &r, sim::Cfg &c ) { gen( r, c ); c.def( "signals", 1, 1 ); }
void gen_out_splitjoin( sim::Rng &r, sim::Cfg &c ) { gen( r, c ); c.def( "early", (long) r.below( 2 ), 0 ); }
void run_out_splitjoin( const sim::Cfg &c ) { run_out( run, c ); }
sim::Register r18splitjoin( { "P18", "splitjoin.exhaustion", gen_out_splitjoin, run_out_splitjoin, sim::SCHED_FAULTS | FBIT( sim::F_ALLOC ) | FBIT( sim::F_THREAD ), 3 } );
sim::Register r02( { "P02", "splitjoin.signals", gen_signals, run, sim::SCHED_FAULTS, 1 } );
sim::Register r06( { "P06", "splitjoin.ends", gen, run, sim::SCHED_FAULTS, 1 } );
sim::Register r07( { "P07", "splitjoin.result", gen, run, sim::SCHED_FAULTS, 2 } );
sim::Register r08( { "P08", "splitjoin.life", gen, run, sim::SCHED_FAULTS, 2 } );
sim::Register r12( { "P12", "splitjoin", gen, run, sim::SCHED_FAULTS, 10 } );
}
