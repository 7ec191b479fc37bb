/* link.cpp - one link (a FIFO) used directly: a producer thread, a consumer
 * thread, observers and a thread that grows the buffer, against a reference
 * queue of item numbers and signals. */
#include "common.hpp"

namespace
{
enum POp { P_PUSH, P_ALLOC, P_ALLOC_S, P_GIVEBACK, P_RANGE, P_INS_VEC, P_INS_LIST, P_PUSH_RV, P_SPACE, P_PAUSE, NPOP };
enum COp { C_POP, C_POP_S, C_POP_RANGE, C_PEEK_A, C_PEEK_B, C_LOOK, C_WIN, C_WIN_IN, C_RECYCLE, C_POP_NOSIG, C_SIZE, C_HOLD, C_PAUSE, C_PEEK_POP, NCOP };

/** the reference: item i is item number i; what varies is how far each side is **/
struct Model
{
    long total;                 /* items to be sent */
    long started, sent;         /* producer: begun / completed sends */
    long begun, taken;          /* consumer: begun / completed takes */
    long capmax, cap0;          /* largest capacity that can be in force; initial */
    long rmax, wmax;            /* largest range allocated / window asked for: together they fit the link */
    bool close_begun, closed, pdone, cdone, exiting;
    long req, ack, gen;         /* quiescence rendezvous: generation asked for / reached */
    int  prod, cons;
    unsigned char sig[ 4096 ];
    /* an item of an allocated range that was sent with a signal: where the range is, what was seen with the item */
    struct { long first; int len; char seen; } grp[ 4096 ];
    volatile bool exit_alloc;
};
Model M;
FIFO *Q;
const sim::Cfg *CF;

SIM_HOST void begin_send( long n )
{
    M.started += n;
}
SIM_HOST void end_send( long n )
{
    M.sent += n;
    sim::alive();
    if( M.sent - M.begun > M.capmax )
        VIOLATES( "P03", "over-capacity", "%ld items accepted by a link of capacity %ld", M.sent - M.begun, M.capmax );
}
SIM_HOST void begin_take( long n ) { M.begun += n; }
SIM_HOST void end_take( long n )
{
    M.taken += n;
    M.begun = M.taken;
    sim::alive();
    if( M.taken > M.started )
        VIOLATES( "P01 P03 P04 P05 P09", "phantom-item", "%ld items taken but only %ld sent", M.taken, M.started );
}
/** the consumer's size() **/
SIM_HOST void saw_size( long n, const char *who )
{
    if( n > M.started - M.taken )
        VIOLATES( "P03 P04", "occupancy", "%s: size() is %ld with at most %ld items to take", who, n, M.started - M.taken );
}
/* those of the last 4096 items: more than a link ever holds */
SIM_HOST unsigned sig_of( long i ) { return i >= 0 ? M.sig[ i % (long) sizeof M.sig ] : 0; }
SIM_HOST void plan_sig( long i, unsigned s )
{
    M.sig[ i % (long) sizeof M.sig ] = (unsigned char) s;
    M.grp[ i % (long) sizeof M.sig ] = { 0, 0, 0 };
}
SIM_HOST void plan_range( long i, long n, unsigned s )
{
    for( long k = 0; k < n; k++ ) {
        plan_sig( i + k, s );
        if( s ) M.grp[ ( i + k ) % (long) sizeof M.sig ] = { i, (int) n, 0 };
    }
}

template < class T > void expect_item( const T &v, long i, const char *how )
{
    if( ! Item< T >::is( v, (uint64_t) i ) ) {
        long k = -1;
        for( long j = i > 40 ? i - 40 : 0; j < i + 40; j++ ) if( Item< T >::is( v, (uint64_t) j ) ) { k = j; break; }
        if( k >= 0 ) VIOLATES( "P01 P04 P05 P09", "wrong-item", "%s of item %ld delivered item %ld", how, i, k );
        VIOLATES( "P01 P04 P05 P09", "wrong-item", "%s of item %ld delivered something that was never sent", how, i );
    }
}
/** a signal given to send_range: exactly one item of the range has it **/
SIM_HOST void expect_range_sig( raft::signal s, long i, const char *how )
{
    const raft::signal want = usig( sig_of( i ) );
    auto &g = M.grp[ i % (long) sizeof M.sig ];
    if( s != want && s != raft::none )
        VIOLATES( "P02 P04", "wrong-signal", "%s of item %ld reported signal %d, its range was sent with %d", how, i, (int) s, (int) want );
    const char now = s == want ? 2 : 1;
    if( g.seen && g.seen != now )
        VIOLATES( "P02 P04", "wrong-signal", "%s of item %ld reported signal %d, another look at the same item did not", how, i, (int) s );
    g.seen = now;
    int with = 0, without = 0;
    for( int k = 0; k < g.len; k++ ) {
        const char c = M.grp[ ( g.first + k ) % (long) sizeof M.sig ].seen;
        with += c == 2;
        without += c == 1;
    }
    if( with > 1 )
        VIOLATES( "P02 P04", "wrong-signal", "%s of item %ld reported signal %d, so did another item of the range it was given once for", how, i, (int) s );
    if( without == g.len )
        VIOLATES( "P02 P04", "wrong-signal", "none of the %d items from item %ld came with signal %d, given for the range", g.len, g.first, (int) want );
    if( g.len > 1 ) sim::probe( "signal of a range looked for" );
}
void expect_sig( raft::signal s, long i, const char *how )
{
    if( M.grp[ i % (long) sizeof M.sig ].len ) { expect_range_sig( s, i, how ); return; }
    const raft::signal want = usig( sig_of( i ) );
    if( s != want )
        VIOLATES( "P02 P04", "wrong-signal", "%s of item %ld reported signal %d, sent with %d", how, i, (int) s, (int) want );
}

/** the self-releasing handles can be handed on: passed to a function, returned from one **/
template < class R > R relay( R r ) { return r; }
template < class R > R relay_sig( R r, raft::signal s ) { r.sig() = s; return r; }

template < class T > struct Ctor { static void fill( T &r, long i ) { r = Item< T >::make( (uint64_t) i ); } };

template < class T, bool INL_CLASS = inline_class_alloc< T >::value > struct Prod
{   /* not a class: allocate() gives raw storage */
    static void alloc( long i, raft::signal s )
    {
        T &r = Q->allocate< T >();
        r = Item< T >::make( (uint64_t) i );
        Q->send( s );
    }
    static void alloc_s( long i, raft::signal s )
    {
        switch( sim::wbelow( 6 ) ) {
        case 0: {
            auto r( relay( Q->allocate_s< T >() ) );
            *r = Item< T >::make( (uint64_t) i );
            r.sig() = s;
            break;
        }
        case 1: {
            auto r( relay_sig( Q->allocate_s< T >(), s ) );
            *r = Item< T >::make( (uint64_t) i );
            break;
        }
        default: {
            auto r( Q->allocate_s< T >() );
            *r = Item< T >::make( (uint64_t) i );
            r.sig() = s;
        }
        }
    }
    static void giveback( long i )
    {
        T &r = Q->allocate< T >();
        if( i & 1 ) r = Item< T >::make( 777777 );
        Q->deallocate();
    }
};
template < class T > struct Prod< T, true >
{
    static void alloc( long i, raft::signal s )
    {
        T &r = Q->allocate< T >( Item< T >::make( (uint64_t) i ) );
        expect_item( r, i, "allocation" );
        Q->send( s );
    }
    static void alloc_s( long i, raft::signal s )
    {
        switch( sim::wbelow( 6 ) ) {
        case 0: {
            auto r( relay( Q->allocate_s< T >( Item< T >::make( (uint64_t) i ) ) ) );
            r.sig() = s;
            break;
        }
        case 1: {
            auto r( relay_sig( Q->allocate_s< T >( Item< T >::make( (uint64_t) i ) ), s ) );
            expect_item( *r, i, "allocation" );
            break;
        }
        default: {
            auto r( Q->allocate_s< T >( Item< T >::make( (uint64_t) i ) ) );
            r.sig() = s;
        }
        }
    }
    static void giveback( long )
    {
        Q->allocate< T >( Item< T >::make( 777777 ) );
        Q->deallocate();
    }
};
template < class T > constexpr bool can_range = ! inline_class_alloc< T >::value || std::is_trivial< T >::value;
template < class T, bool OK = can_range< T > > struct Range
{
    static bool send( long i, long n, unsigned shuffle, raft::signal s )
    {
        auto v( Q->allocate_range< T >( (size_t) n ) );
        if( (long) v.size() != n ) VIOLATES( "P09 P01", "range-size", "allocate_range(%ld) gave %zu slots", n, v.size() );
        for( long a = 0; a < n; a++ )
            for( long b = a + 1; b < n; b++ )
                if( &v[ (size_t) a ].get() == &v[ (size_t) b ].get() )
                    VIOLATES( "P09 P01", "range-slots", "allocate_range(%ld) gave the same slot twice", n );
        for( long k = 0; k < n; k++ ) {
            const long j = shuffle ? n - 1 - k : k;
            v[ (size_t) j ].get() = Item< T >::make( (uint64_t)( i + j ) );
        }
        plan_range( i, n, (unsigned)( s ? s - raft::MAX_SYSTEM_SIGNAL : 0 ) );
        if( s ) Q->send_range( s ); else Q->send_range();
        return true;
    }
    /** allocated, perhaps written to, and not sent **/
    static void giveback( long n )
    {
        auto v( Q->allocate_range< T >( (size_t) n ) );
        for( auto &r : v ) r.get() = Item< T >::make( 777777 );
        Q->deallocate();
        sim::probe( "producer gives a range back" );
    }
};
template < class T > struct Range< T, false >
{
    static bool send( long, long, unsigned, raft::signal ) { return false; }
    static void giveback( long ) {}
};

template < class T > void send_some( long i, long &n, POp op, raft::signal s )
{
    /* n: at most this many; set to the number sent */
    const long want = n;
    n = 1;
    switch( op ) {
    case P_ALLOC:
        begin_send( 1 );
        Prod< T >::alloc( i, s );
        break;
    case P_ALLOC_S:
        begin_send( 1 );
        Prod< T >::alloc_s( i, s );
        break;
    case P_RANGE:
        n = 1 + (long) sim::wbelow( (uint64_t)( want < M.rmax ? want : M.rmax ) );
        for( long k = 0; k < n; k++ ) plan_sig( i + k, 0 );
        begin_send( n );
        if( ! Range< T >::send( i, n, (unsigned) sim::wbelow( 2 ), s ) ) {
            plan_sig( i, 0 );
            M.started -= n - 1;
            n = 1;
            const T v( Item< T >::make( (uint64_t) i ) );
            Q->push< T >( v );
        }
        break;
    case P_INS_VEC: {
        n = 1 + (long) sim::wbelow( (uint64_t)( want < 2 * M.cap0 + 3 ? want : 2 * M.cap0 + 3 ) );
        std::vector< T > v;
        for( long k = 0; k < n; k++ ) v.push_back( Item< T >::make( (uint64_t)( i + k ) ) );
        for( long k = 0; k < n - 1; k++ ) plan_sig( i + k, 0 );
        plan_sig( i + n - 1, (unsigned)( s ? s - raft::MAX_SYSTEM_SIGNAL : 0 ) );
        begin_send( n );
        Q->insert( v.begin(), v.end(), s );
        break;
    }
    case P_INS_LIST: {
        n = 1 + (long) sim::wbelow( (uint64_t)( want < 2 * M.cap0 + 3 ? want : 2 * M.cap0 + 3 ) );
        std::list< T > v;
        for( long k = 0; k < n; k++ ) v.push_back( Item< T >::make( (uint64_t)( i + k ) ) );
        for( long k = 0; k < n - 1; k++ ) plan_sig( i + k, 0 );
        plan_sig( i + n - 1, (unsigned)( s ? s - raft::MAX_SYSTEM_SIGNAL : 0 ) );
        begin_send( n );
        Q->insert( v.begin(), v.end(), s );
        break;
    }
    default: {
        const T v( Item< T >::make( (uint64_t) i ) );
        begin_send( 1 );
        if( s || op == P_PUSH ) Q->push< T >( v, s );
        else Q->push< T >( v );
        break;
    }
    }
    end_send( n );
}

SIM_HOST int pick_op( long mask, int nop )
{
    int c[ 32 ], n = 0;
    for( int i = 0; i < nop; i++ ) if( mask & ( 1l << i ) ) c[ n++ ] = i;
    return n ? c[ sim::wbelow( (uint64_t) n ) ] : 0;
}
/** a send that no allocation precedes simply returns, so does an insert of nothing **/
template < class T > void stray()
{
    switch( sim::wbelow( 16 ) ) {
    case 4: { std::vector< T > v; Q->insert( v.begin(), v.end(), usig( 7 ) ); break; }
    case 5: { std::list< T > v; Q->insert( v.begin(), v.end() ); break; }
    case 0: Q->send(); break;
    case 1: Q->send( usig( 7 ) ); break;
    case 2: Q->send_range(); break;
    case 3: Q->send_range( usig( 7 ) ); break;
    default: return;
    }
    sim::probe( "sends of nothing" );
}
/** a promise of n free slots / n items must hold with the other side stopped **/
template < class T > void producer( void * )
{
    const long mask = ( *CF )[ "pops" ], sigs = ( *CF )[ "sigs" ], freeze = ( *CF )[ "freeze" ];
    long i = 0;
    while( i < M.total ) {
        if( const long g = M.req ) {
            M.ack = g;
            while( M.req == g ) sim::yield();
        }
        const POp op = (POp) pick_op( mask, NPOP );
        if( op == P_GIVEBACK ) {
            if( ( mask & ( 1l << P_RANGE ) ) && sim::wbelow( 2 ) ) Range< T >::giveback( 1 + (long) sim::wbelow( (uint64_t) M.rmax ) );
            else { Prod< T >::giveback( i ); sim::probe( "producer giveback" ); }
            stray< T >();
            continue;
        }
        if( op == P_PAUSE ) { sim::sleep_ns( 1000ull << sim::wbelow( 12 ) ); continue; }
        if( op == P_SPACE ) {
            const long n = (long) Q->space_avail();
            if( n > M.capmax ) VIOLATES( "P03", "occupancy", "space_avail() is %ld on a link of capacity %ld", n, M.capmax );
            if( n > M.capmax - ( M.sent - M.begun ) )
                VIOLATES( "P03", "occupancy", "space_avail() is %ld with %ld of %ld slots taken", n, M.sent - M.begun, M.capmax );
            if( freeze && n > 0 && sim::wbelow( 2 ) ) {
                sim::probe( "sends promised by space_avail, consumer stopped" );
                sim::freeze( M.cons, true );
                for( long k = 0; k < n && i < M.total; k++, i++ ) {
                    plan_sig( i, 0 );
                    long one = 1;
                    send_some< T >( i, one, P_PUSH, raft::none );
                }
                sim::freeze( M.cons, false );
            }
            continue;
        }
        unsigned s = 0;
        if( sigs && sim::wbelow( 100 ) < (uint64_t) sigs ) s = 1 + (unsigned) sim::wbelow( 200 );
        plan_sig( i, s );
        long n = M.total - i;
        send_some< T >( i, n, op, usig( s ) );
        i += n;
        stray< T >();
    }
    if( ( *CF )[ "lateclose" ] ) sim::sleep_ns( 1000ull << sim::wbelow( 14 ) );
    M.pdone = true;
    M.close_begun = true;
    Q->invalidate();
    M.closed = true;
    if( ! Q->is_invalid() ) VIOLATES( "P05 P04", "close-lost", "the link is not closed after its producer closed it" );
}

SIM_HOST void check_quiet()
{
    const long n = M.sent - M.taken;
    const long a = (long) Q->size(), b = (long) Q->space_avail(), c = (long) Q->capacity();
    if( a != n || b != c - n )
        VIOLATES( "P03", "quiescent", "both sides idle, %ld items present, capacity %ld: size() %ld, space_avail() %ld", n, c, a, b );
    if( M.capmax == M.cap0 && c != M.cap0 )
        VIOLATES( "P03", "capacity", "a link of capacity %ld reports %ld", M.cap0, c );
    sim::probe( "quiescent reports compared" );
}
/** both ends idle and holding nothing: what is asked for now must be done now.
 *  The items are in one piece, as none was stored past the end yet. **/
struct Growth { long want; bool done; };
void grow_once( void *a )
{
    Growth *const g = (Growth *) a;
    Q->resize( (size_t) g->want, 16, M.exit_alloc );
    g->done = true;
}
void check_idle_growth()
{
    if( M.sent <= M.taken || M.sent >= M.cap0 || M.capmax != M.cap0 || M.pdone ) return;
    Growth g = { M.cap0 + 1 + (long) sim::wbelow( (uint64_t) M.cap0 + 3 ), false };
    M.capmax = g.want;
    const int f = sim::spawn( grow_once, &g );
    for( int k = 0; k < 3000 && ! g.done; k++ ) sim::sleep_ns( 100000 );
    if( ! g.done )
        VIOLATES( "P04", "growth-refused", "both sides idle with %ld of %ld slots taken, and the link is not growing", M.sent - M.taken, M.cap0 );
    sim::join( f );
    if( (long) Q->capacity() != g.want )
        VIOLATES( "P04", "capacity", "capacity is %zu after growing an idle link to %ld", Q->capacity(), g.want );
    sim::probe( "idle links grown" );
}
template < class T > struct Hold { static T make() { return T(); } };

template < class T > bool consume_one( COp op, bool closing )
{
    /* may throw the port exceptions; returns false when nothing is left */
    const long i = M.taken, left = M.total - i;
    raft::signal s = (raft::signal) 12345;
    switch( op ) {
    case C_POP: {
        T v( Hold< T >::make() );
        begin_take( 1 );
        Q->pop< T >( v, &s );
        expect_item( v, i, "pop" );
        expect_sig( s, i, "pop" );
        end_take( 1 );
        break;
    }
    case C_POP_NOSIG: {
        T v( Hold< T >::make() );
        begin_take( 1 );
        Q->pop< T >( v );
        expect_item( v, i, "pop" );
        end_take( 1 );
        break;
    }
    case C_POP_S: {
        begin_take( 1 );
        if( sim::wbelow( 4 ) == 0 ) {
            auto r( relay( Q->pop_s< T >() ) );
            expect_item( *r, i, "pop_s" );
            expect_sig( r.sig(), i, "pop_s" );
            sim::yield();
            expect_item( *r, i, "held pop_s" );
        }
        else {
            auto r( Q->pop_s< T >() );
            expect_item( *r, i, "pop_s" );
            expect_sig( r.sig(), i, "pop_s" );
            if( sim::wbelow( 4 ) == 0 ) { sim::yield(); expect_item( *r, i, "held pop_s" ); }
        }
        end_take( 1 );
        break;
    }
    case C_POP_RANGE: {
        if( left < 1 ) return consume_one< T >( C_POP, closing );
        const long lim = left < 2 * M.cap0 + 2 ? left : 2 * M.cap0 + 2;
        const long n = 1 + (long) sim::wbelow( (uint64_t) lim );
        std::vector< std::pair< T, raft::signal > > v;
        for( long k = 0; k < n; k++ ) v.emplace_back( Hold< T >::make(), (raft::signal) 4242 );
        begin_take( n );
        Q->pop_range( v, (size_t) n );
        for( long k = 0; k < n; k++ ) {
            expect_item( v[ (size_t) k ].first, i + k, "pop_range" );
            expect_sig( v[ (size_t) k ].second, i + k, "pop_range" );
        }
        end_take( n );
        break;
    }
    case C_PEEK_A: case C_PEEK_B: case C_HOLD: case C_LOOK: case C_PEEK_POP: {
        const bool withsig = sim::wbelow( 2 );
        T &r = withsig ? Q->peek< T >( &s ) : Q->peek< T >();
        expect_item( r, i, "peek" );
        if( withsig ) expect_sig( s, i, "peek" );
        if( op == C_HOLD ) {
            const int k = 1 + (int) sim::wbelow( 6 );
            for( int a = 0; a < k; a++ ) {
                if( sim::wbelow( 2 ) ) sim::yield(); else sim::sleep_ns( 500ull << sim::wbelow( 12 ) );
                expect_item( r, i, "held peek" );
            }
            sim::probe( "references held while others ran" );
        }
        if( op == C_LOOK || op == C_PEEK_POP ) {
            Q->unpeek();
            if( op == C_LOOK ) break;
            return consume_one< T >( C_POP, closing );
        }
        begin_take( 1 );
        if( op == C_PEEK_A ) { Q->unpeek(); Q->recycle( 1 ); }
        else { Q->recycle( 1 ); Q->unpeek(); }
        end_take( 1 );
        break;
    }
    case C_WIN: case C_WIN_IN: {
        long n = 1 + (long) sim::wbelow( (uint64_t) M.wmax );
        if( ! closing && n > left ) n = left;
        if( n < 1 ) return consume_one< T >( C_POP, closing );
        long k = (long) sim::wbelow( (uint64_t) n + 1 );
        if( k > left ) k = left;
        {
            const bool on = sim::wbelow( 4 ) == 0;
            auto w( on ? relay( Q->peek_range< T >( (size_t) n ) ) : Q->peek_range< T >( (size_t) n ) );
            if( n > left ) VIOLATES( "P05 P09", "window", "a window of %ld was given with %ld items left", n, left );
            if( (long) w.size() != n ) VIOLATES( "P09", "window", "window of %ld reports size %zu", n, w.size() );
            if( on ) {
                bool thrown = false;
                try { w[ (size_t) n + (size_t) sim::wbelow( 3 ) ]; }
                catch( std::length_error & ) { thrown = true; }
                if( ! thrown ) VIOLATES( "P09", "window", "an item beyond a window of %ld was handed out", n );
            }
            for( int pass = 0; pass < 2; pass++ ) {
                for( long j = 0; j < n; j++ ) {
                    auto p( w[ (size_t) j ] );
                    expect_item( p.ele, i + j, "window" );
                    expect_sig( p.sig, i + j, "window" );
                }
                if( sim::wbelow( 2 ) ) break;
                if( sim::wbelow( 2 ) ) sim::yield(); else sim::sleep_ns( 500ull << sim::wbelow( 10 ) );
            }
            if( op == C_WIN_IN ) { begin_take( k ); Q->recycle( (size_t) k ); end_take( k ); }
        }
        if( op == C_WIN ) { begin_take( k ); Q->recycle( (size_t) k ); end_take( k ); }
        sim::probe( "windows compared" );
        break;
    }
    case C_RECYCLE: {
        long k = 1 + (long) sim::wbelow( (uint64_t)( M.cap0 + 2 ) );
        if( ! closing && k > left ) k = left;
        if( k < 1 ) return consume_one< T >( C_POP, closing );
        const long real = k < left ? k : left;
        begin_take( real );
        Q->recycle( (size_t) k );
        if( real < k && ! M.close_begun )
            VIOLATES( "P05 P09", "recycle", "recycle(%ld) returned with %ld items sent and the link open", k, M.started );
        end_take( real );
        break;
    }
    default: break;
    }
    if( sim::wbelow( 16 ) == 0 ) {
        /* of nothing: takes nothing, waits for nothing */
        if( sim::wbelow( 2 ) ) { std::vector< std::pair< T, raft::signal > > v; Q->pop_range( v, 0 ); }
        else Q->recycle( 0 );
        sim::probe( "takes of nothing" );
    }
    return true;
}
template < class T > void consumer( void * )
{
    const long mask = ( *CF )[ "cops" ], freeze = ( *CF )[ "freeze" ], quiet = ( *CF )[ "quiet" ], toend = ( *CF )[ "toend" ];
    const long idle = ( *CF )[ "idlegrow" ];
    bool asked = false;
    for( ;; ) {
        const long left = M.total - M.taken;
        if( asked && ( M.ack == M.req || M.pdone ) ) {
            check_quiet();
            if( idle ) check_idle_growth();
            M.req = 0;
            asked = false;
        }
        if( asked ) {
            if( idle && sim::wbelow( 8 ) ) sim::sleep_ns( 2000 );
            else if( Q->size() > 0 ) consume_one< T >( C_POP, false );
            else sim::yield();
            continue;
        }
        if( quiet && M.pdone == false && sim::wbelow( (uint64_t) quiet ) == 0 ) { M.req = ++M.gen; asked = true; continue; }
        if( left == 0 && ! toend ) break;
        COp op = (COp) pick_op( mask, NCOP );
        if( op == C_PAUSE ) { sim::sleep_ns( 1000ull << sim::wbelow( 12 ) ); continue; }
        if( op == C_SIZE ) {
            const long n = (long) Q->size();
            saw_size( n, "consumer" );
            if( freeze && n > 0 && sim::wbelow( 2 ) ) {
                sim::probe( "takes promised by size, producer stopped" );
                sim::freeze( M.prod, true );
                for( long k = 0; k < n; k++ ) consume_one< T >( C_POP, false );
                sim::freeze( M.prod, false );
            }
            if( Q->is_invalid() && ! M.close_begun ) VIOLATES( "P05", "closed-early", "the link reports closed while its producer is active" );
            if( left == 0 && M.closed ) op = C_POP;
            else continue;
        }
        try {
            consume_one< T >( op, toend );
        }
        catch( NoMoreDataException & ) {
            const long l = M.total - M.taken;
            if( ! M.close_begun ) VIOLATES( "P05", "closed-early", "too few items reported while the producer is active" );
            if( op != C_WIN && op != C_WIN_IN ) VIOLATES( "P05", "wrong-report", "too-few reported with %ld items left", l );
            sim::probe( "window larger than what is left reported" );
            Q->unpeek();
            /* the rest stays receivable */
            if( sim::wbelow( 2 ) ) while( M.total - M.taken > 0 ) consume_one< T >( C_POP, true );
        }
        catch( ClosedPortAccessException & ) {
            if( ! M.close_begun ) VIOLATES( "P05 P01", "closed-early", "the port is reported closed while its producer is active" );
            if( M.taken != M.total ) VIOLATES( "P05 P01 P04", "undrained", "the port is reported closed with %ld of %ld items taken", M.taken, M.total );
            sim::probe( "closed port reported" );
            break;
        }
        if( toend && M.taken == M.total && M.closed && ( mask & ( 1l << C_RECYCLE ) ) && sim::wbelow( 2 ) ) {
            Q->recycle( 1 + sim::wbelow( 5 ) );
            sim::probe( "skipping on a drained closed link returned" );
            break;
        }
    }
    if( M.taken != M.total ) VIOLATES( "P01", "lost", "%ld of %ld items received", M.taken, M.total );
    if( M.req ) M.req = 0;
    M.cdone = true;
}
void observer( void * )
{
    while( ! M.cdone || ! M.closed ) {
        switch( sim::wbelow( 3 ) ) {
        case 0: {
            const long n = (long) Q->size();
            if( n < 0 || n > M.capmax ) VIOLATES( "P03 P04", "occupancy", "an observer reads size() %ld on a link of capacity %ld", n, M.capmax );
            break;
        }
        case 1: {
            const long n = (long) Q->capacity();
            if( n < M.cap0 || n > M.capmax ) VIOLATES( "P03 P04", "capacity", "an observer reads capacity() %ld on a link of capacity %ld", n, M.capmax );
            break;
        }
        default:
            if( Q->is_invalid() && ! M.close_begun ) VIOLATES( "P05", "closed-early", "an observer sees the link closed while its producer is active" );
        }
        if( sim::wbelow( 3 ) == 0 ) sim::sleep_ns( 100ull << sim::wbelow( 12 ) ); else sim::yield();
    }
}
void grower( void * )
{
    long cap = M.cap0;
    const long n = ( *CF )[ "grow" ];
    for( long k = 0; k < n; k++ ) {
        if( sim::wbelow( 2 ) ) sim::sleep_ns( 200ull << sim::wbelow( 14 ) );
        const long want = cap + 1 + (long) sim::wbelow( (uint64_t) cap + 3 );
        M.capmax = want;
        Q->resize( (size_t) want, 16, M.exit_alloc );
        const long c = (long) Q->capacity();
        if( c != want ) {
            if( ! M.close_begun && ! M.exit_alloc ) VIOLATES( "P04", "capacity", "capacity is %ld after growing to %ld", c, want );
            if( c != cap ) VIOLATES( "P04", "capacity", "capacity is %ld after a growth request from %ld to %ld that was refused", c, cap, want );
            sim::probe( "growth refused while closing" );
            break;
        }
        sim::probe( "buffers grown" );
        cap = want;
    }
}
void closer( void * )
{
    sim::sleep_ns( 1000ull << sim::wbelow( 14 ) );
    M.exit_alloc = true;
}

template < class T > FIFO *make_fifo( long cap, bool monitored )
{
    return monitored ? RingBuffer< T, Type::Heap, true >::make_new_fifo( (size_t) cap, 16, nullptr )
                     : RingBuffer< T, Type::Heap, false >::make_new_fifo( (size_t) cap, 16, nullptr );
}

template < class T > void run_type( const sim::Cfg &c )
{
    CF = &c;
    memset( (void *) &M, 0, sizeof M );
    lives_reset();
    M.total = c[ "items" ];
    M.cap0 = M.capmax = c[ "cap" ];
    M.rmax = c[ "rmax" ] < M.cap0 ? c[ "rmax" ] : M.cap0;
    M.wmax = c[ "pops" ] & ( 1l << P_RANGE ) ? M.cap0 + 1 - M.rmax : M.cap0;
    const uint64_t mark = sim::heap_mark();
    Q = make_fifo< T >( M.cap0, c[ "monitored" ] );
    if( (long) Q->capacity() != M.cap0 || Q->size() != 0 || (long) Q->space_avail() != M.cap0 )
        VIOLATES( "P03", "capacity", "a new link of capacity %ld reports %zu, size %zu", M.cap0, Q->capacity(), Q->size() );
    M.prod = sim::spawn( producer< T >, nullptr );
    M.cons = sim::spawn( consumer< T >, nullptr );
    int o[ 4 ], no = 0;
    for( long k = 0; k < c[ "obs" ]; k++ ) o[ no++ ] = sim::spawn( observer, nullptr );
    int g = -1, cl = -1;
    if( c[ "grow" ] ) {
        g = sim::spawn( grower, nullptr );
        if( c[ "exitalloc" ] ) cl = sim::spawn( closer, nullptr );
    }
    sim::join( M.prod );
    sim::join( M.cons );
    for( int k = 0; k < no; k++ ) sim::join( o[ k ] );
    if( g >= 0 ) sim::join( g );
    if( cl >= 0 ) sim::join( cl );
    check_quiet();
    if( ! Q->is_invalid() ) VIOLATES( "P05 P04", "close-lost", "the link is open again after its producer closed it" );
    for( long k = 0; k < M.total; k++ ) sim::hist( (uint64_t) k * 256 + sig_of( k ) );
    delete Q;
    if( lifecycle< T >::value && lives.live != 0 )
        VIOLATES( "P08", "objects-left", "%ld objects constructed, %ld destroyed", lives.made, lives.dead );
    if( strcmp( sim::prop(), "P08" ) == 0 ) {
        char what[ 200 ];
        const size_t n = sim::heap_leaks( mark, what, sizeof what );
        if( n ) VIOLATES( "P08", "leak", "%zu blocks left behind: %s", n, what );
    }
}
void run_link( const sim::Cfg &c )
{
    switch( c[ "type" ] ) {
    case 0: return run_type< uint64_t >( c );
    case 1: return run_type< uint32_t >( c );
    case 2: return run_type< uint8_t >( c );
    case 3: return run_type< double >( c );
    case 4: return run_type< Pod >( c );
    case 5: return run_type< Obj >( c );
    case 6: return run_type< std::string >( c );
    case 7: return run_type< std::vector< uint32_t > >( c );
    case 8: return run_type< bool >( c );
    default: return run_type< Line >( c );
    }
}
long some_ops( sim::Rng &r, int n, long must, long may )
{
    /* a subset of the permitted operations that can make progress */
    long m = 0;
    for( int i = 0; i < n; i++ ) if( ( may >> i & 1 ) && r.below( 2 ) ) m |= 1l << i;
    if( r.below( 6 ) == 0 ) m = 0;
    if( ! ( m & must ) ) {
        for( ;; ) { const int i = (int) r.below( (uint64_t) n ); if( must >> i & 1 ) { m |= 1l << i; break; } }
    }
    return m;
}
constexpr long B( int i ) { return 1l << i; }
constexpr long PSEND = B( P_PUSH ) | B( P_ALLOC ) | B( P_ALLOC_S ) | B( P_RANGE ) | B( P_INS_VEC ) | B( P_INS_LIST ) | B( P_PUSH_RV );
constexpr long PALL  = PSEND | B( P_GIVEBACK ) | B( P_SPACE ) | B( P_PAUSE );
constexpr long CTAKE = B( C_POP ) | B( C_POP_S ) | B( C_POP_RANGE ) | B( C_PEEK_A ) | B( C_PEEK_B ) | B( C_RECYCLE ) | B( C_POP_NOSIG ) | B( C_HOLD ) | B( C_PEEK_POP );
constexpr long CALL_ = CTAKE | B( C_WIN ) | B( C_WIN_IN ) | B( C_LOOK ) | B( C_SIZE ) | B( C_PAUSE );
long some_cap( sim::Rng &r )
{
    static const long caps[] = { 1, 1, 2, 2, 3, 3, 4, 5, 7, 8, 16, 33, 64 };
    static const long many[] = { 65, 100, 127, 128, 129, 200, 255, 256, 257, 300 };
    return r.below( 20 ) ? r.pick( caps ) : r.pick( many );
}
void common_cfg( sim::Rng &r, sim::Cfg &c, long pops, long cops, bool classes = false, long few = 0 )
{
    const long cap = some_cap( r );
    c.def( "type", classes ? 5 + (long) r.below( 3 ) : (long) r.below( 10 ), classes ? 5 : 0 );
    c.def( "cap", cap, 1 );
    long m = few ? few : r.below( 4 ) == 0 ? 200 : 5 * cap + 12;
    if( m > 200 ) m = cap < 65 ? 200 : 3 * cap;
    /* now and then enough to pass what a byte can count, seldom what two can */
    const bool lng = r.below( 100 ) == 0, very = r.below( 8000 ) == 0;
    c.def( "items", very ? 65500 + (long) r.below( 300 ) : lng ? 250 + (long) r.below( 900 ) : 1 + (long) r.below( (uint64_t) m ), 1 );
    c.def( "rmax", 1 + (long) r.below( (uint64_t) cap ), 1 );
    c.def( "pops", pops, pops );
    c.def( "cops", cops, cops );
}
void tail_cfg( sim::Rng &r, sim::Cfg &c, long sigs, long grow, long obs, long freeze, long quiet, long toend, long exitalloc, long late )
{
    c.def( "sigs", sigs, 0 );
    c.def( "grow", grow, 0 );
    c.def( "obs", obs, 0 );
    c.def( "freeze", freeze, 0 );
    c.def( "quiet", quiet, 0 );
    c.def( "toend", toend, toend );
    c.def( "exitalloc", exitalloc, 0 );
    c.def( "lateclose", late, 0 );
    c.def( "idlegrow", 0, 0 );
    c.def( "monitored", (long) ( r.below( 8 ) == 0 ), 0 );
}
void gen_p01( sim::Rng &r, sim::Cfg &c )
{
    common_cfg( r, c, some_ops( r, NPOP, PSEND, PALL ), some_ops( r, NCOP, CTAKE & ~B( C_RECYCLE ), CALL_ ) );
    tail_cfg( r, c, r.below( 3 ) ? 0 : 30, 0, (long) r.below( 5 ) == 0, 0, 0, (long) r.below( 2 ), 0, 0 );
}
void gen_p02( sim::Rng &r, sim::Cfg &c )
{
    static const long rate[] = { 5, 20, 50, 90, 100 };
    common_cfg( r, c, some_ops( r, NPOP, PSEND, PALL & ~B( P_SPACE ) ),
                some_ops( r, NCOP, B( C_POP ) | B( C_POP_S ) | B( C_POP_RANGE ) | B( C_PEEK_A ) | B( C_PEEK_B ) | B( C_HOLD ), CALL_ ) );
    tail_cfg( r, c, r.pick( rate ), 0, 0, 0, 0, (long) r.below( 2 ), 0, 0 );
}
void gen_p03( sim::Rng &r, sim::Cfg &c )
{
    common_cfg( r, c, some_ops( r, NPOP, PSEND, PALL ) | ( r.below( 2 ) ? B( P_SPACE ) : 0 ), some_ops( r, NCOP, CTAKE, CALL_ ) | ( r.below( 2 ) ? B( C_SIZE ) : 0 ) );
    tail_cfg( r, c, 0, 0, (long) r.below( 3 ), (long) r.below( 2 ), r.below( 2 ) ? 1 + (long) r.below( 12 ) : 0, 0, 0, 0 );
}
void gen_p04( sim::Rng &r, sim::Cfg &c )
{
    common_cfg( r, c, some_ops( r, NPOP, PSEND, PALL & ~B( P_SPACE ) ), some_ops( r, NCOP, CTAKE & ~B( C_RECYCLE ), CALL_ ) );
    tail_cfg( r, c, r.below( 2 ) ? 40 : 0, 1 + (long) r.below( 5 ), (long) r.below( 4 ) == 0, 0, 0, (long) r.below( 2 ), (long) r.below( 3 ) == 0, (long) r.below( 2 ) );
}
void gen_idle( sim::Rng &r, sim::Cfg &c )
{
    common_cfg( r, c, some_ops( r, NPOP, PSEND, PALL ) | ( r.below( 3 ) == 0 ? B( P_RANGE ) | B( P_GIVEBACK ) : 0 ), some_ops( r, NCOP, CTAKE & ~B( C_RECYCLE ), CALL_ ) );
    c.def( "cap", 3 + (long) r.below( r.below( 3 ) ? 20 : 60 ), 3 );
    c.def( "items", 3 + (long) r.below( 60 ), 2 );
    c.def( "rmax", 1 + (long) r.below( 4 ), 1 );
    tail_cfg( r, c, r.below( 2 ) ? 40 : 0, 0, (long) r.below( 5 ) == 0, 0, 1 + (long) r.below( 3 ), 0, 0, 0 );
    c.def( "idlegrow", 1, 1 );
}
void gen_p05( sim::Rng &r, sim::Cfg &c )
{
    common_cfg( r, c, some_ops( r, NPOP, PSEND, PALL & ~B( P_SPACE ) ), some_ops( r, NCOP, CTAKE, CALL_ ) | ( r.below( 3 ) == 0 ? B( C_WIN ) : 0 ), false, r.below( 2 ) ? 12 : 0 );
    tail_cfg( r, c, r.below( 3 ) ? 0 : 30, r.below( 4 ) ? 0 : (long) r.below( 3 ), (long) r.below( 3 ) == 0, 0, 0, 1, 0, (long) r.below( 2 ) );
}
void gen_p09( sim::Rng &r, sim::Cfg &c )
{
    static const long looks[] = { C_PEEK_A, C_PEEK_B, C_LOOK, C_WIN, C_WIN_IN, C_HOLD, C_PEEK_POP };
    common_cfg( r, c, some_ops( r, NPOP, PSEND, PALL & ~B( P_SPACE ) ) | ( r.below( 3 ) == 0 ? B( P_RANGE ) : 0 ),
                some_ops( r, NCOP, CTAKE & ~B( C_RECYCLE ), CALL_ ) | B( (int) r.pick( looks ) ) | B( (int) r.pick( looks ) ) );
    tail_cfg( r, c, r.below( 2 ) ? 0 : 30, r.below( 4 ) ? 0 : 1 + (long) r.below( 3 ), (long) r.below( 5 ) == 0, 0, 0, (long) r.below( 2 ), 0, 0 );
}
void gen_p08( sim::Rng &r, sim::Cfg &c )
{
    common_cfg( r, c, some_ops( r, NPOP, PSEND, PALL & ~B( P_SPACE ) ) | ( r.below( 3 ) == 0 ? B( P_GIVEBACK ) : 0 ), some_ops( r, NCOP, CTAKE, CALL_ ), true );
    tail_cfg( r, c, 0, r.below( 3 ) ? 0 : 1 + (long) r.below( 3 ), (long) r.below( 5 ) == 0, 0, 0, (long) r.below( 2 ), 0, 0 );
}
const unsigned FL = sim::FBIT( sim::F_STALL ) | sim::FBIT( sim::F_START ) | sim::FBIT( sim::F_OVERSLEEP ) | sim::FBIT( sim::F_EINTR ) | sim::FBIT( sim::F_STORE );
sim::Register r01( { "P01", "link.order", gen_p01, run_link, FL, 10 } );
sim::Register r02( { "P02", "link.signals", gen_p02, run_link, FL, 10 } );
sim::Register r03( { "P03", "link.capacity", gen_p03, run_link, FL, 10 } );
sim::Register r04( { "P04", "link.growth", gen_p04, run_link, FL, 200 } );
sim::Register r14( { "P04", "link.idlegrow", gen_idle, run_link, FL, 10 } );
sim::Register r05( { "P05", "link.close", gen_p05, run_link, FL, 10 } );
sim::Register r09( { "P09", "link.lookahead", gen_p09, run_link, FL, 10 } );
sim::Register r08( { "P08", "link.lifecycle", gen_p08, run_link, FL, 10 } );
}
