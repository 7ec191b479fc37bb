/* graph.cpp - random applications executed through raft::map: P06 P07 P08 P10
 * P11 P17 share the kernels, each with the checks it owns. */
#include "graph.hpp"

const char *const port_name[ MAXPORT ] = { "0", "1", "2", "3" };

SIM_HOST void Book::enter( long assigned ) const
{
    Account &a = *app->a;
    const NodePlan &N = app->p->node[ id ];
    if( a.inside[ id ] ) VIOLATES( "P11", "overlap", "kernel %d is activated while its previous activation is still running", id );
    if( a.stopped[ id ] ) VIOLATES( "P11", "after-stop", "kernel %d is activated after it asked to stop", id );
    if( a.over ) VIOLATES( "P11 P06", "after-return", "kernel %d is activated after the execution returned", id );
    if( a.check_core ) {
        const long want = a.placed ? assigned : a.core[ id ], has = sim::pin_of( sim::self() );
        if( want >= 0 && has < 0 ) VIOLATES( "P16", "unbound", "kernel %d, assigned to core %ld, is run by a thread that was not bound", id, want );
        if( want >= 0 && has != want ) VIOLATES( "P16 P17", "wrong-core", "kernel %d, assigned to core %ld, is run by a thread bound to %ld", id, want, has );
        if( want < 0 && has >= 0 ) VIOLATES( "P16 P17", "bound", "kernel %d has no core assigned, its thread was bound to %ld", id, has );
        if( want >= 0 ) sim::probe( "activations on the assigned core" ); else sim::probe( "activations without an assignment" );
    }
    int with = 0;
    for( int i = 0; i < N.nin; i++ ) {
        const int l = N.in[ i ];
        if( a.begun[ l ] - a.taken[ l ] > 0 ) with++;
    }
    if( N.nin ) {
        if( N.kind == N_ZIP && with < N.nin )
            VIOLATES( "P11", "no-data", "kernel %d needs data on all of its inputs and was activated with data on %d of %d", id, with, N.nin );
        if( with == 0 ) VIOLATES( "P11", "no-data", "kernel %d was activated without any data waiting", id );
    }
    a.inside[ id ] = true;
    a.runs[ id ]++;
    a.thread[ id ] = sim::self();
}
SIM_HOST void Book::leave( raft::kstatus s ) const
{
    Account &a = *app->a;
    a.inside[ id ] = false;
    if( s == raft::stop ) a.stopped[ id ] = true;
}
SIM_HOST void Book::seen( uint64_t v, const void *at ) const
{
    sim::HostScope h;
    auto it = app->a->where.find( v );
    if( at && it != app->a->where.end() && it->second != at ) VIOLATES( "P10", "another-object", "kernel %d: an object handed on by reference is not the object that arrives", id );
    if( it != app->a->where.end() ) app->a->where.erase( it );
}
SIM_HOST void Book::took( int port, uint64_t v ) const
{
    Account &a = *app->a;
    const int l = app->p->node[ id ].in[ port ];
    a.taken[ l ]++;
    sim::progress();
    if( v == ~0ull && ! app->tolerant ) VIOLATES( "P07 P10 P08 P17 P01 P04 P09", "damaged", "kernel %d received a damaged item as number %ld on link %d", id, a.taken[ l ] - 1, l );
    if( v == ~0ull ) VIOLATES( "P18", "damaged", "kernel %d received a damaged item as number %ld on link %d", id, a.taken[ l ] - 1, l );
}
SIM_HOST void Book::end_send( int port ) const
{
    Account &a = *app->a;
    const int l = app->p->node[ id ].out[ port ];
    const long cap = app->p->link[ l ].cap;
    sim::progress();
    a.sent[ l ]++;
    /* one item may be out of the link although its consumer has not said so yet */
    if( cap && ! a.grown && a.sent[ l ] - a.taken[ l ] > cap + ( a.coming[ l ] > 1 ? a.coming[ l ] : 1 ) )
        VIOLATES( "P03", "over-capacity", "link %d of capacity %ld has accepted %ld items of which %ld were taken", l, cap, a.sent[ l ], a.taken[ l ] );
}
SIM_HOST void app_reset( App &app )
{
    Account &a = *app.a;
    memset( (void *) a.sent, 0, sizeof a.sent );
    memset( (void *) a.begun, 0, sizeof a.begun );
    memset( (void *) a.taken, 0, sizeof a.taken );
    memset( (void *) a.coming, 0, sizeof a.coming );
    memset( (void *) a.inside, 0, sizeof a.inside );
    memset( (void *) a.stopped, 0, sizeof a.stopped );
    memset( (void *) a.runs, 0, sizeof a.runs );
    a.over = a.check_core = a.placed = a.grown = false;
    sim::HostScope h;
    for( int i = 0; i < MAXNODE; i++ ) { a.got[ i ].clear(); a.core[ i ] = -1; }
    a.where.clear();
}
/** the account of a finished execution against the sequential evaluation **/
SIM_HOST void app_check( App &app, const char *tags )
{
    sim::HostScope h;
    Plan &p = *app.p;
    Account &a = *app.a;
    (void) tags;
    for( int n = 0; n < p.nn; n++ )
        if( a.inside[ n ] ) VIOLATES( "P06 P11 P18", "still-running", "kernel %d is still inside an activation when the execution has returned", n );
    for( int l = 0; l < p.nl; l++ ) {
        const LinkPlan &L = p.link[ l ];
        const long want = (long) L.seq.size();
        if( a.sent[ l ] != want ) VIOLATES( "P06 P07 P17 P18 P04", "incomplete", "%ld of %ld items were sent on link %d (kernel %d to %d) when the execution returned", a.sent[ l ], want, l, L.from, L.to );
        if( a.taken[ l ] != want - L.left ) VIOLATES( "P06 P07 P17 P18 P01 P04 P05", "unconsumed", "%ld of %ld items were consumed on link %d (kernel %d to %d) when the execution returned", a.taken[ l ], want - L.left, l, L.from, L.to );
    }
    for( int n = 0; n < p.nn; n++ ) {
        if( p.node[ n ].stop_after && ! a.stopped[ n ] ) VIOLATES( "P06 P11 P18", "not-stopped", "the execution returned but kernel %d was never run to its stop", n );
        if( p.node[ n ].kind == N_SRC && ! a.stopped[ n ] ) VIOLATES( "P06 P11 P18", "not-stopped", "the execution returned but source %d was never run to its stop", n );
        if( p.node[ n ].kind != N_SINK ) continue;
        const LinkPlan &L = p.link[ p.node[ n ].in[ 0 ] ];
        const std::vector< uint64_t > &g = a.got[ n ];
        if( L.ordered ) {
            for( size_t i = 0; i < g.size() && i < L.seq.size(); i++ )
                if( g[ i ] != L.seq[ i ] ) {
                    size_t j = 0;
                    while( j < L.seq.size() && L.seq[ j ] != g[ i ] ) j++;
                    if( j < L.seq.size() ) VIOLATES( "P07 P17 P18 P01 P04", "wrong-result", "sink %d: item %zu is the one expected as number %zu", n, i, j );
                    VIOLATES( "P07 P17 P18 P01 P04", "wrong-result", "sink %d: item %zu was never sent there", n, i );
                }
            if( (long) g.size() != (long) L.seq.size() - L.left ) VIOLATES( "P07 P17 P18 P01 P04", "wrong-result", "sink %d: %zu of %zu items", n, g.size(), L.seq.size() - (size_t) L.left );
        }
        else {
            std::map< uint64_t, size_t > at;
            for( size_t j = 0; j < L.seq.size(); j++ ) at[ L.seq[ j ] ] = j;
            std::vector< char > seen( L.seq.size(), 0 );
            std::map< uint32_t, size_t > last;
            for( size_t i = 0; i < g.size(); i++ ) {
                auto it = at.find( g[ i ] );
                if( it == at.end() ) VIOLATES( "P07 P17 P18 P01 P04", "wrong-result", "sink %d: item %zu was never sent there", n, i );
                const size_t j = it->second;
                if( seen[ j ] ) VIOLATES( "P07 P17 P18 P01 P04", "wrong-result", "sink %d: item %zu came twice", n, i );
                seen[ j ] = 1;
                auto la = last.find( L.part[ j ] );
                if( la != last.end() && la->second > j ) VIOLATES( "P07 P17 P18 P01 P04", "wrong-order", "sink %d: an item overtook an earlier one of its own stream", n );
                last[ L.part[ j ] ] = j;
            }
            if( g.size() != L.seq.size() ) VIOLATES( "P07 P17 P18 P01 P04", "wrong-result", "sink %d: %zu of %zu items", n, g.size(), L.seq.size() );
        }
        for( uint64_t v : g ) sim::hist( v );
    }
    if( p.nn > 2 ) sim::probe( "applications with more than two kernels" );
    for( int n = 0; n < p.nn; n++ ) {
        if( p.node[ n ].kind != N_ZIP ) continue;
        sim::probe( "applications with an all-port kernel" );
        for( int i = 0; i < p.node[ n ].nin; i++ ) if( p.link[ p.node[ n ].in[ i ] ].left ) sim::probe( "all-port kernels whose inputs end at different times" );
        break;
    }
    for( int n = 0; n < p.nn; n++ ) {
        if( p.node[ n ].kind == N_MERGE ) { sim::probe( "applications with an arrival-order merge" ); break; }
    }
    sim::probe( "items carried", (uint64_t)[&] { long s = 0; for( int l = 0; l < p.nl; l++ ) s += a.taken[ l ]; return s; }() );
}

namespace
{
Plan    P0;
Account A0;
App     APP;

void setup( App &app, Plan &p, Account &a, const sim::Cfg &c, const char *pre )
{
    app.p = &p;
    app.a = &a;
    char nm[ 16 ];
    snprintf( nm, sizeof nm, "%stype", pre );
    app.type = (int) c[ nm ];
    snprintf( nm, sizeof nm, "%space", pre );
    app.pace = c[ nm ];
    app.slow = 0;
    app.cfg = &c;
    app.tolerant = false;
    make_plan( p, c, pre, app.type == 4 );
    app.sigs = true;
    app_reset( app );
}
SIM_HOST void explain_app( char *o, size_t n )
{
    Plan &p = *APP.p;
    Account &a = *APP.a;
    size_t at = 0;
    auto put = [&]( const char *f, long x, long y, long z, long w, long v, long u ) { if( at < n ) at += (size_t) snprintf( o + at, n - at, f, x, y, z, w, v, u ); };
    for( int l = 0; l < p.nl; l++ ) {
        const LinkPlan &L = p.link[ l ];
        if( a.taken[ l ] == (long) L.seq.size() ) continue;
        put( "; link %ld (%ld->%ld) cap %ld sent %ld taken %ld", l, L.from, L.to, L.cap, a.sent[ l ], a.taken[ l ] );
        put( " of %ld", (long) L.seq.size(), 0, 0, 0, 0, 0 );
    }
    for( int k = 0; k < p.nn; k++ ) if( a.inside[ k ] ) put( "; kernel %ld (kind %ld) active", k, p.node[ k ].kind, 0, 0, 0, 0 );
}
/** executes the application with the checks every property shares **/
void after_graph( uint64_t mark, long left )
{
    if( sim::live_threads() ) VIOLATES( "P06", "threads-left", "%d threads still run when the execution has returned", sim::live_threads() );
    if( left ) { sim::probe( "applications in which a kernel stopped early" ); return; }
    if( lives.live != 0 )
        VIOLATES( "P08 P10 P17", "objects-left", "%ld objects constructed, %ld destroyed", lives.made, lives.dead );
    if( strcmp( sim::prop(), "P08" ) == 0 || strcmp( sim::prop(), "P10" ) == 0 ) {
        char what[ 200 ];
        const size_t n = sim::heap_leaks( mark, what, sizeof what );
        if( n ) VIOLATES( "P08 P10", "leak", "%zu blocks left behind: %s", n, what );
    }
}
void run_graph( const sim::Cfg &c )
{
    lives_reset();
    setup( APP, P0, A0, c, "" );
    sim::explain_with( explain_app );
    const uint64_t mark = sim::heap_mark();
    app_execute_type( APP, (int) c[ "mode" ] );
    app_check( APP, "" );
    after_graph( mark, P0.leftover );
}
/** links of the default size whose consumers are slow: the library's own monitor grows them **/
void run_pressed( const sim::Cfg &c )
{
    lives_reset();
    setup( APP, P0, A0, c, "" );
    APP.slow = c[ "slow" ];
    sim::explain_with( explain_app );
    const uint64_t mark = sim::heap_mark();
    app_execute_type( APP, (int) c[ "mode" ] );
    app_check( APP, "" );
    after_graph( mark, P0.leftover );
}
/** some kernels assigned to cores, or all by the partitioner **/
void assign_cores( App &app, long how, long mode )
{
    Account &a = *app.a;
    a.check_core = true;
    a.placed = mode == 3;
    for( int n = 0; n < app.p->nn; n++ ) {
        const uint64_t h = scramble( (uint64_t)( how * 131 + n ) );
        if( how && h % 3 ) a.core[ n ] = h / 21 % 9 ? (long)( h / 3 % 7 ) : (long)( h / 189 % 300 );
    }
}
void run_bound( const sim::Cfg &c )
{
    lives_reset();
    setup( APP, P0, A0, c, "" );
    sim::explain_with( explain_app );
    const uint64_t mark = sim::heap_mark();
    assign_cores( APP, c[ "cores" ], c[ "mode" ] );
    app_execute_type( APP, (int) c[ "mode" ] );
    app_check( APP, "" );
    after_graph( mark, P0.leftover );
}
/** memory or threads run out while the application is being executed **/
void run_exhausted( const sim::Cfg &c )
{
    lives_reset();
    setup( APP, P0, A0, c, "" );
    APP.tolerant = true;
    sim::explain_with( explain_app );
    sim::on_tolerated( ended_by_fault );
    sim::tolerate_abort_after( FBIT( sim::F_ALLOC ) | FBIT( sim::F_THREAD ) );
    bool reached = false;
    app_execute_type( APP, (int) c[ "mode" ], &reached );
    if( reached ) {
        if( ! sim::fired( sim::F_ALLOC ) && ! sim::fired( sim::F_THREAD ) ) VIOLATES( "P18", "error", "an error reached the caller although nothing had failed" );
        sim::sleep_ns( 50000000 );             /* whoever still runs now does so without the application */
        sim::probe( "ended by an error that reached the caller" );
        return;
    }
    if( sim::fired( sim::F_ALLOC ) || sim::fired( sim::F_THREAD ) ) sim::probe( "completed although something failed" );
    app_check( APP, "" );
}
/* several applications in one process, one after the other or at once */
constexpr int NAPP = 3;
Plan    PN[ NAPP ];
Account AN[ NAPP ];
App     APPN[ NAPP ];
const char *const pren[ NAPP ] = { "a", "b", "c" };
const sim::Cfg *cfgn;
void one_app( void *v )
{
    const long i = (long)(intptr_t) v;
    char nm[ 8 ];
    snprintf( nm, sizeof nm, "%smode", pren[ i ] );
    const long mode = ( *cfgn )[ nm ];
    snprintf( nm, sizeof nm, "%sreps", pren[ i ] );
    const long reps = ( *cfgn )[ nm ];
    for( long r = 0; r < reps; r++ ) {
        setup( APPN[ i ], PN[ i ], AN[ i ], *cfgn, pren[ i ] );
        snprintf( nm, sizeof nm, "%score", pren[ i ] );
        assign_cores( APPN[ i ], ( *cfgn )[ nm ], mode );
        APPN[ i ].slow = ( *cfgn )[ "slow" ];
        app_execute_type( APPN[ i ], (int) mode );
        app_check( APPN[ i ], "" );
    }
}
void run_several( const sim::Cfg &c )
{
    lives_reset();
    cfgn = &c;
    const long n = c[ "apps" ];
    const uint64_t mark = sim::heap_mark();
    if( c[ "atonce" ] ) {
        int t[ NAPP ];
        for( long i = 1; i < n; i++ ) t[ i ] = sim::spawn( one_app, (void *)(intptr_t) i );
        one_app( nullptr );
        for( long i = 1; i < n; i++ ) sim::join( t[ i ] );
        sim::probe( "applications executed at the same time", (uint64_t) n );
    }
    else for( long i = 0; i < n; i++ ) one_app( (void *)(intptr_t) i );
    long left = 0;
    for( long i = 0; i < n; i++ ) left += PN[ i ].leftover;
    after_graph( mark, left );
}
void gen( sim::Rng &r, sim::Cfg &c, long type, long items, int ops )
{
    c.def( "type", type, 0 );
    static const long modes[] = { 0, 0, 1, 2, 2, 2 };
    c.def( "mode", r.pick( modes ), 0 );
    c.def( "pace", r.below( 3 ) ? 0 : 1 + (long) r.below( 20 ), 0 );
    plan_cfg( r, c, "", items, ops );
    if( r.below( 250 ) == 0 ) c.def( "items", 260 + (long) r.below( 400 ), 0 );
}
void gen_any( sim::Rng &r, sim::Cfg &c ) { gen( r, c, (long) r.below( 5 ), r.below( 4 ) ? 12 : 100, r.below( 3 ) ? 4 : 10 ); }
void gen_obj( sim::Rng &r, sim::Cfg &c ) { gen( r, c, 2 + (long) r.below( 3 ), r.below( 4 ) ? 12 : 60, r.below( 3 ) ? 4 : 10 ); }
void gen_big( sim::Rng &r, sim::Cfg &c )
{
    gen( r, c, 4, r.below( 4 ) ? 12 : 60, 1 );
    /* mostly kernels that hand on, and often several items in one activation */
    const long n = 1 + (long) r.below( 3 );
    char b[ 8 ];
    for( int i = 0; i < n; i++ ) {
        snprintf( b, sizeof b, "op%d", i );
        c.def( b, ( r.below( 3 ) ? 15 : 1 + (long) r.below( 15 ) ) + 16 * (long) r.below( 6 ), 0 );
    }
    c.def( "styles", 1 + (long) r.below( 100000 ), 0 );
}
void gen_bound( sim::Rng &r, sim::Cfg &c )
{
    gen( r, c, (long) r.below( 2 ), 12, 3 );
    c.def( "mode", r.below( 3 ) ? r.range( 0, 2 ) : 3, 0 );
    c.def( "cores", r.below( 8 ) ? 1 + (long) r.below( 10000 ) : 0, 0 );
}
sim::Register r16( { "P16", "graph.binding", gen_bound, run_bound, sim::SCHED_FAULTS, 10 } );
void gen_exhausted( sim::Rng &r, sim::Cfg &c )
{
    gen( r, c, (long) r.below( 5 ), r.below( 4 ) ? 12 : 80, r.below( 3 ) ? 3 : 10 );
    static const long modes[] = { 0, 1, 2, 2, 3 };
    c.def( "mode", r.pick( modes ), 0 );
}
sim::Register r18( { "P18", "graph.exhaustion", gen_exhausted, run_exhausted, sim::SCHED_FAULTS | FBIT( sim::F_ALLOC ) | FBIT( sim::F_THREAD ), 10 } );
void gen_several( sim::Rng &r, sim::Cfg &c )
{
    const long n = 2 + (long) r.below( 2 );
    c.def( "apps", n, 1 );
    c.def( "atonce", r.below( 3 ) != 0, 0 );
    for( int i = 0; i < NAPP; i++ ) {
        char nm[ 8 ];
        static const long modes[] = { 0, 0, 1, 2, 2, 3 };
        snprintf( nm, sizeof nm, "%stype", pren[ i ] ); c.def( nm, i < n ? (long) r.below( 5 ) : 0, 0 );
        snprintf( nm, sizeof nm, "%smode", pren[ i ] ); c.def( nm, i < n ? r.pick( modes ) : 0, 0 );
        snprintf( nm, sizeof nm, "%space", pren[ i ] ); c.def( nm, i < n && r.below( 3 ) == 0 ? 1 + (long) r.below( 20 ) : 0, 0 );
        snprintf( nm, sizeof nm, "%score", pren[ i ] ); c.def( nm, i < n && r.below( 2 ) ? 1 + (long) r.below( 9999 ) : 0, 0 );
        snprintf( nm, sizeof nm, "%sreps", pren[ i ] ); c.def( nm, 1 + (long) r.below( 2 ), 0 );
        plan_cfg( r, c, pren[ i ], 10, 3 );
    }
    c.def( "slow", 0, 0 );
}
/** two at once whose links the library's own monitors grow meanwhile **/
void gen_crowded( sim::Rng &r, sim::Cfg &c )
{
    c.def( "apps", 2, 1 );
    c.def( "atonce", 1, 0 );
    for( int i = 0; i < NAPP; i++ ) {
        plan_cfg( r, c, pren[ i ], 4, 0 );
        auto def = [&]( const char *n, long v ) { char nm[ 16 ]; snprintf( nm, sizeof nm, "%s%s", pren[ i ], n ); c.def( nm, v, 0 ); };
        def( "type", (long) r.below( 5 ) );
        def( "mode", r.below( 3 ) ? 1 : 3 );
        def( "pace", 0 );
        def( "core", 0 );
        def( "reps", 1 );
        def( "caps", 0 );
        def( "srcs", 0 );
        def( "vary", 0 );
        def( "styles", 0 );
        def( "items", 68 + (long) r.below( 16 ) );
    }
    c.def( "slow", 1500 + (long) r.below( 1500 ), 0 );
}
sim::Register r17c( { "P17", "graph.crowded", gen_crowded, run_several, sim::SCHED_FAULTS, 2 } );
sim::Register r17( { "P17", "graph.several", gen_several, run_several, sim::SCHED_FAULTS, 10 } );
sim::Register r10( { "P10", "graph.forward", gen_big, run_graph, sim::SCHED_FAULTS, 10 } );
const unsigned FL = sim::SCHED_FAULTS;
sim::Register r06( { "P06", "graph.termination", gen_any, run_graph, FL, 10 } );
sim::Register r07( { "P07", "graph.result", gen_any, run_graph, FL, 10 } );
sim::Register r08( { "P08", "graph.lifecycle", gen_obj, run_graph, FL, 10 } );
sim::Register r08f( { "P08", "graph.forward8", gen_big, run_graph, FL, 5 } );
/** the link properties seen from whole applications: closing, growth and signals
 *  as the scheduler and the allocators bring them about **/
void gen_few( sim::Rng &r, sim::Cfg &c ) { gen( r, c, (long) r.below( 5 ), r.below( 4 ) ? 16 : 100, r.below( 4 ) ? 2 : 8 ); }
void gen_growing( sim::Rng &r, sim::Cfg &c )
{
    gen_few( r, c );
    static const long modes[] = { 1, 2, 2, 2, 2 };
    c.def( "mode", r.pick( modes ), 0 );
}
void gen_fixed( sim::Rng &r, sim::Cfg &c )
{
    gen_few( r, c );
    c.def( "mode", (long) r.below( 2 ), 0 );
    c.def( "caps", r.below( 2 ) ? 1 + (long) r.below( 8 ) : 65 + (long) r.below( 1000 ), 1 );
    if( r.below( 4 ) ) return;
    /* larger than the default */
    c.def( "caps", 2001 + (long) r.below( 1000 ), 1 );
    if( r.below( 2 ) ) return;
    c.def( "items", 100 + (long) r.below( 200 ), 1 );
    c.def( "srcs", 0, 0 );
}
/** links of items too large for the buffer itself: only whole applications
 *  can have these. Few links, so that both sides of one meet often **/
void gen_large( sim::Rng &r, sim::Cfg &c )
{
    gen( r, c, 4, r.below( 4 ) ? 30 : 100, 1 );
    char b[ 8 ];
    for( int i = 1; i < 4; i++ ) { snprintf( b, sizeof b, "op%d", i ); c.def( b, 0, 0 ); }
    if( r.below( 3 ) == 0 ) c.def( "op0", 0, 0 );
    c.def( "srcs", 0, 0 );
    c.def( "vary", 0, 0 );
    c.def( "styles", 1 + (long) r.below( 100000 ), 0 );
    if( r.below( 2 ) ) c.def( "pace", 0, 0 );
}
void gen_large_growing( sim::Rng &r, sim::Cfg &c )
{
    gen_large( r, c );
    c.def( "mode", 2, 0 );
}
sim::Register r01( { "P01", "graph.items", gen_few, run_graph, FL, 1 } );
sim::Register r01l( { "P01", "graph.large1", gen_large, run_graph, FL, 2 } );
sim::Register r02l( { "P02", "graph.large2", gen_large, run_graph, FL, 3 } );
sim::Register r04l( { "P04", "graph.large4", gen_large_growing, run_graph, FL, 15 } );
sim::Register r05l( { "P05", "graph.large5", gen_large, run_graph, FL, 2 } );
sim::Register r09l( { "P09", "graph.large9", gen_large, run_graph, FL, 2 } );
sim::Register r02( { "P02", "graph.signals", gen_few, run_graph, FL, 1 } );
sim::Register r03( { "P03", "graph.capacity", gen_fixed, run_graph, FL, 1 } );
sim::Register r04( { "P04", "graph.growth", gen_growing, run_graph, FL, 20 } );
sim::Register r05( { "P05", "graph.closing", gen_few, run_graph, FL, 1 } );
sim::Register r09( { "P09", "graph.lookahead", gen_few, run_graph, FL, 1 } );
void gen_pressed( sim::Rng &r, sim::Cfg &c )
{
    gen( r, c, (long) r.below( 5 ), 4, 1 );
    c.def( "mode", r.below( 3 ) ? 1 : 3, 0 );
    c.def( "caps", 0, 0 );
    c.def( "pace", 0, 0 );
    c.def( "srcs", 0, 0 );
    c.def( "vary", 0, 0 );
    if( r.below( 4 ) ) c.def( "styles", 0, 0 );
    c.def( "items", 72 + (long) r.below( 24 ) + ( c[ "op0" ] ? 64 : 0 ), 0 );
    c.def( "slow", 1500 + (long) r.below( 1500 ), 0 );
}
sim::Register r04p( { "P04", "graph.pressed", gen_pressed, run_pressed, FL, 3 } );
/** kernels with several inputs, which end at different times **/
void gen_uneven( sim::Rng &r, sim::Cfg &c )
{
    gen( r, c, (long) r.below( 5 ), r.below( 3 ) ? 8 : 20, 2 );
    c.def( "srcs", 1 + (long) r.below( 2 ), 0 );
    c.def( "vary", 1 + (long) r.below( 1000 ), 0 );
    const long few = 2 + (long) r.below( 8 );
    c.def( "caps", r.below( 3 ) ? few : 65 + (long) r.below( 1000 ), 0 );
    char b[ 8 ];
    const int at = (int) r.below( 3 );
    for( int i = 0; i < 4; i++ ) {
        snprintf( b, sizeof b, "op%d", i );
        if( i < at ) { if( r.below( 2 ) ) c.def( b, 1 + (long) r.below( 4 ) + 16 * (long) r.below( 6 ), 0 ); }
        else if( r.below( 3 ) ) c.def( b, 11 + 16 * (long) r.below( 5 ), 0 );
    }
}
sim::Register r11( { "P11", "graph.activation", gen_any, run_graph, FL, 6 } );
sim::Register r11u( { "P11", "graph.uneven", gen_uneven, run_graph, FL, 5 } );
sim::Register r05u( { "P05", "graph.uneven5", gen_uneven, run_graph, FL, 1 } );
sim::Register r06u( { "P06", "graph.uneven6", gen_uneven, run_graph, FL, 3 } );
}
