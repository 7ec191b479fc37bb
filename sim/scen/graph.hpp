/* graph.hpp - whole applications: kernels that keep account of what they do,
 * a random acyclic topology interpreted from a list of small integers, and a
 * sequential evaluation of the same graph as the reference. */
#ifndef SCEN_GRAPH_HPP
#define SCEN_GRAPH_HPP 1
#include "common.hpp"
#include <raftmanip>
#include <map>
#include <algorithm>

/* values carried by items ------------------------------------------------ */
template < class T > struct GV;
template <> struct GV< uint64_t >
{
    static uint64_t make( uint64_t v ) { return v; }
    static uint64_t get( const uint64_t &t ) { return t; }
};
template <> struct GV< Pod >
{
    static Pod make( uint64_t v ) { return Item< Pod >::make( v ); }
    static uint64_t get( const Pod &t ) { return Item< Pod >::is( t, t.id ) ? t.id : ~0ull; }
};
template <> struct GV< Obj >
{
    static Obj make( uint64_t v ) { return Obj( v ); }
    static uint64_t get( const Obj &t ) { t.check( "read" ); return t.sum == scramble( t.id ) ? t.id : ~0ull; }
};
template <> struct GV< Big >
{
    static Big make( uint64_t v ) { return Big( v ); }
    static uint64_t get( const Big &t ) { t.check( "read" ); return t.intact() ? t.id : ~0ull; }
};
template <> struct GV< std::string >
{
    static std::string make( uint64_t v )
    {
        char b[ 64 ];
        const int n = snprintf( b, sizeof b, "%016lx%s", (unsigned long) v, v % 3 ? "" : "...........................") ;
        return std::string( b, (size_t) n );
    }
    SIM_HOST static uint64_t get( const std::string &t )
    {
        sim::HostScope h;
        if( t.size() < 16 ) return ~0ull;
        const uint64_t v = strtoull( std::string( t, 0, 16 ).c_str(), nullptr, 16 );
        return t == make( v ) ? v : ~0ull;
    }
};

constexpr int MAXNODE = 40, MAXLINK = 48, MAXPORT = 4;

enum NodeKind { N_SRC, N_PASS, N_DUP, N_ALT, N_ZIP, N_MERGE, N_SINK, N_FWD };
struct NodePlan
{
    NodeKind kind;
    int      nin, nout;
    int      in[ MAXPORT ], out[ MAXPORT ];    /* link numbers */
    long     items;                            /* sources */
    long     stop_after;                       /* asks to stop after so many items although more come; 0: never */
    long close_after[ MAXPORT ];               /* closes that output itself after so many items; -1: leaves that to the library */
    unsigned style;
};
struct LinkPlan
{
    int  from, fport, to, tport;
    long cap;                                  /* 0: the default, may be grown by the library */
    long left;                                 /* items that stay in the link: its consumer stops before */
    std::vector< uint64_t > seq;               /* expected values; empty order if merged */
    std::string sig;                           /* the tick sequence this stream follows */
    std::string tick;                          /* the same up to its length: streams of one tick advance in step */
    bool ordered;                              /* false: downstream of an arrival-order merge */
    std::vector< int > parts;                  /* merged: the ordered streams it interleaves, as part ids */
    std::vector< uint32_t > part;              /* for each element of seq: part id */
};
/** everything known about one application on the side of the simulator **/
struct Plan
{
    int      nn = 0, nl = 0, nparts = 0;
    long     leftover = 0;                     /* items never received: they are not destroyed either */
    NodePlan node[ MAXNODE ];
    LinkPlan link[ MAXLINK ];
};
/** what the kernels of one application report while it runs **/
struct Account
{
    long sent[ MAXLINK ], begun[ MAXLINK ], taken[ MAXLINK ];
    bool inside[ MAXNODE ], stopped[ MAXNODE ];
    long runs[ MAXNODE ];
    int  thread[ MAXNODE ];
    bool over;                                 /* exe() has returned */
    std::vector< uint64_t > got[ MAXNODE ];    /* sinks */
    long core[ MAXNODE ];                      /* binding asked for, -1: none */
    long coming[ MAXLINK ];                    /* taken together, not yet accounted for one by one */
    bool grown;                                /* links may be grown beyond what was asked for */
    bool check_core, placed;                   /* placed: by the partitioner */
    std::map< uint64_t, const void * > where;  /* objects handed on by reference */
};

static inline uint64_t step_value( uint64_t v, int node, int port )
{
    return scramble( v + 0x51ED270B * (uint64_t)( node + 1 ) + 77 * (uint64_t) port ) >> 1;
}
static inline uint64_t source_value( int node, long i ) { return ( scramble( (uint64_t) node * 1000003 + (uint64_t) i ) >> 1 ) | 1; }
static inline uint64_t zip_value( uint64_t a, uint64_t b, int node ) { return step_value( a ^ ( b * 3 ), node, 9 ); }

/** which output a forwarding kernel chooses, 2: none; and whether it copies **/
static inline int fwd_to( int node, uint64_t v ) { return (int)( scramble( v ^ 0xF0F0 + (uint64_t) node ) % 3 ); }
static inline bool fwd_copy( int node, uint64_t v ) { return scramble( v + 99 + (uint64_t) node ) % 4 == 0; }

/* styles: which calls a kernel uses */
enum { S_BYREF = 1, S_BATCH = 2, S_DROP = 4, S_LATESTOP = 8 };

/** builds the plan from configuration integers; every list of integers is legal **/
struct PlanOpts { bool merge, alt, zip, byref; };
SIM_HOST inline void make_plan( Plan &p, const sim::Cfg &c, const char *pre, bool big )
{
    sim::HostScope hs;
    char nm[ 32 ];
    auto cfg = [&]( const char *n ) { snprintf( nm, sizeof nm, "%s%s", pre, n ); return c[ nm ]; };
    auto opn = [&]( int i ) { snprintf( nm, sizeof nm, "%sop%d", pre, i ); return c[ nm ]; };
    const long nsrc = 1 + cfg( "srcs" ), caps = cfg( "caps" ), items = cfg( "items" ), vary = cfg( "vary" ), styles = cfg( "styles" );
    p.nn = p.nl = p.nparts = 0;
    p.leftover = 0;
    std::vector< int > open;
    auto cap_of = [&]( int l ) -> long {
        static const long small[] = { 1, 1, 2, 3, 4, 5, 8, 13 }, large[] = { 65, 66, 96, 100, 127, 129, 150, 200 };
        if( caps == 0 ) return 0;
        if( caps <= 64 ) return caps;
        if( caps > 2000 ) return large[ scramble( (uint64_t) caps + 31 * (uint64_t) l ) % 8 ];
        return small[ scramble( (uint64_t) caps + 31 * (uint64_t) l ) % 8 ];
    };
    auto new_link = [&]( int from, int port ) {
        const int l = p.nl++;
        LinkPlan &L = p.link[ l ];
        L = LinkPlan();
        L.from = from; L.fport = port; L.to = -1; L.cap = cap_of( l ); L.ordered = true;
        p.node[ from ].out[ p.node[ from ].nout++ ] = l;
        return l;
    };
    auto new_node = [&]( NodeKind k ) {
        const int n = p.nn++;
        NodePlan &N = p.node[ n ];
        memset( (void *) &N, 0, sizeof N );
        N.kind = k;
        for( long &x : N.close_after ) x = -1;
        N.style = styles ? (unsigned) ( scramble( (uint64_t) styles + (uint64_t) n ) >> 5 ) : 0;
        if( ! big ) N.style &= ~(unsigned) S_BYREF;
        return n;
    };
    auto connect = [&]( int l, int to ) {
        p.link[ l ].to = to;
        p.link[ l ].tport = p.node[ to ].nin;
        p.node[ to ].in[ p.node[ to ].nin++ ] = l;
    };
    for( long s = 0; s < nsrc; s++ ) {
        const int n = new_node( N_SRC );
        p.node[ n ].items = vary ? (long) ( scramble( (uint64_t)( vary * 17 + s ) ) % (uint64_t)( items + 1 ) ) : items;
        const int l = new_link( n, 0 );
        const int part = p.nparts++;
        for( long i = 0; i < p.node[ n ].items; i++ ) {
            p.link[ l ].seq.push_back( source_value( n, i ) );
            p.link[ l ].part.push_back( (uint32_t) part );
        }
        p.link[ l ].parts.push_back( part );
        open.push_back( l );
    }
    for( int i = 0; i < 10; i++ ) {
        const long op = opn( i );
        if( op == 0 ) continue;
        if( p.nn > MAXNODE - 12 || p.nl > MAXLINK - 12 ) break;
        const size_t a = (size_t)( op / 16 ) % open.size();
        const int la = open[ a ];
        if( op >= 96 ) {                                        /* takes the first items and stops */
            LinkPlan &A = p.link[ la ];
            if( ! A.ordered || A.cap == 0 || A.seq.empty() ) continue;
            const long s = (long) A.seq.size();
            A.left = (long)( scramble( (uint64_t) op * 7 + (uint64_t) i ) % (uint64_t)( ( A.cap < s - 1 ? A.cap : s - 1 ) + 1 ) );
            const bool sink = open.size() > 1 && op % 3 == 0;
            const int n = new_node( sink ? N_SINK : N_PASS );
            p.node[ n ].style &= ~(unsigned) S_BYREF;
            p.node[ n ].stop_after = s - A.left;
            p.leftover += A.left;
            connect( la, n );
            if( sink ) { open.erase( open.begin() + (long) a ); continue; }
            const int l = new_link( n, 0 );
            LinkPlan &B = p.link[ l ], &C = p.link[ la ];
            for( long j = 0; j < s - C.left; j++ ) {
                B.seq.push_back( step_value( C.seq[ (size_t) j ], n, 0 ) );
                B.part.push_back( C.part[ (size_t) j ] );
            }
            B.parts = C.parts;
            snprintf( nm, sizeof nm, "h%d", n );
            B.sig = C.sig + nm;
            B.tick = C.tick;
            open[ a ] = l;
            continue;
        }
        switch( op % 16 ) {
        case 1: case 2: case 3: case 4: {                       /* pass */
            const int n = new_node( N_PASS );
            connect( la, n );
            const int l = new_link( n, 0 );
            p.link[ l ].seq = p.link[ la ].seq;
            if( ! ( p.node[ n ].style & S_BYREF ) )
                for( auto &v : p.link[ l ].seq ) v = step_value( v, n, 0 );
            p.link[ l ].part = p.link[ la ].part; p.link[ l ].parts = p.link[ la ].parts;
            p.link[ l ].sig = p.link[ la ].sig; p.link[ l ].tick = p.link[ la ].tick; p.link[ l ].ordered = p.link[ la ].ordered;
            open[ a ] = l;
            break;
        }
        case 5: case 6: {                                       /* both outputs get every item, or one of them only the first */
            const int n = new_node( N_DUP );
            connect( la, n );
            const unsigned st = p.node[ n ].style >> 8;
            if( p.link[ la ].ordered && st % 4 == 1 )
                p.node[ n ].close_after[ st / 4 % 2 ] = (long)( st / 8 % ( p.link[ la ].seq.size() + 1 ) );
            for( int k = 0; k < 2; k++ ) {
                const int l = new_link( n, k );
                p.link[ l ].seq = p.link[ la ].seq;
                for( auto &v : p.link[ l ].seq ) v = step_value( v, n, k );
                p.link[ l ].sig = p.link[ la ].sig; p.link[ l ].tick = p.link[ la ].tick; p.link[ l ].ordered = p.link[ la ].ordered;
                std::map< int, int > fresh;
                for( int q : p.link[ la ].parts ) { fresh[ q ] = p.nparts++; p.link[ l ].parts.push_back( fresh[ q ] ); }
                for( auto q : p.link[ la ].part ) p.link[ l ].part.push_back( (uint32_t) fresh[ (int) q ] );
                if( p.node[ n ].close_after[ k ] >= 0 ) {
                    p.link[ l ].seq.resize( (size_t) p.node[ n ].close_after[ k ] );
                    p.link[ l ].part.resize( (size_t) p.node[ n ].close_after[ k ] );
                    snprintf( nm, sizeof nm, "h%d", n );
                    p.link[ l ].sig += nm;
                }
                if( k ) open.push_back( l ); else open[ a ] = l;
            }
            break;
        }
        case 7: case 8: {                                       /* alternate outputs */
            if( ! p.link[ la ].ordered ) break;
            const int n = new_node( N_ALT );
            connect( la, n );
            for( int k = 0; k < 2; k++ ) {
                const int l = new_link( n, k );
                const int part = p.nparts++;
                p.link[ l ].parts.push_back( part );
                for( size_t j = (size_t) k; j < p.link[ la ].seq.size(); j += 2 ) {
                    p.link[ l ].seq.push_back( step_value( p.link[ la ].seq[ j ], n, 0 ) );
                    p.link[ l ].part.push_back( (uint32_t) part );
                }
                p.link[ l ].sig = p.link[ la ].sig + ( k ? "b" : "a" );
                p.link[ l ].tick = p.link[ la ].tick + ( k ? "b" : "a" );
                if( k ) open.push_back( l ); else open[ a ] = l;
            }
            break;
        }
        case 9: case 10: case 11: {                             /* one of each, in step */
            size_t b = open.size();
            for( size_t j = 0; j < open.size(); j++ )
                if( j != a && p.link[ open[ j ] ].ordered && p.link[ la ].ordered && p.link[ open[ j ] ].sig == p.link[ la ].sig &&
                    p.link[ open[ j ] ].seq.size() == p.link[ la ].seq.size() ) { b = j; break; }
            bool uneven = false;                                /* the longer stream keeps what it has too much */
            if( b == open.size() && op % 16 == 11 )
                for( size_t j = 0; j < open.size(); j++ ) {
                    const LinkPlan &A = p.link[ la ], &B = p.link[ open[ j ] ];
                    if( j == a || ! A.ordered || ! B.ordered || A.tick != B.tick ) continue;
                    const LinkPlan &more = A.seq.size() > B.seq.size() ? A : B, &less = A.seq.size() > B.seq.size() ? B : A;
                    if( more.cap == 0 || (long)( more.seq.size() - less.seq.size() ) > more.cap ) continue;
                    b = j;
                    uneven = true;
                    break;
                }
            if( b == open.size() ) break;
            const int lb = open[ b ], n = new_node( N_ZIP );
            const size_t len = std::min( p.link[ la ].seq.size(), p.link[ lb ].seq.size() );
            for( int q : { la, lb } ) {
                p.link[ q ].left = (long)( p.link[ q ].seq.size() - len );
                p.leftover += p.link[ q ].left;
            }
            connect( la, n );
            connect( lb, n );
            const int l = new_link( n, 0 ), part = p.nparts++;
            p.link[ l ].parts.push_back( part );
            for( size_t j = 0; j < len; j++ ) {
                p.link[ l ].seq.push_back( zip_value( p.link[ la ].seq[ j ], p.link[ lb ].seq[ j ], n ) );
                p.link[ l ].part.push_back( (uint32_t) part );
            }
            p.link[ l ].sig = p.link[ la ].sig;
            if( uneven ) { snprintf( nm, sizeof nm, "u%d", n ); p.link[ l ].sig += nm; }
            p.link[ l ].tick = p.link[ la ].tick;
            open[ a ] = l;
            open.erase( open.begin() + (long) b );
            break;
        }
        case 12: case 13: case 14: {                            /* arrival-order merge */
            if( open.size() < 2 ) break;
            const size_t b = ( a + 1 ) % open.size();
            const bool three = op % 16 == 14 && open.size() > 2;
            std::vector< size_t > from = { a, b };
            if( three ) from.push_back( ( a + 2 ) % open.size() );
            const int n = new_node( N_MERGE );
            std::vector< int > ls;
            for( size_t q : from ) { ls.push_back( open[ q ] ); connect( open[ q ], n ); }
            const int l = new_link( n, 0 );
            for( int q : ls ) {
                for( uint64_t v : p.link[ q ].seq ) p.link[ l ].seq.push_back( v );
                for( uint32_t v : p.link[ q ].part ) p.link[ l ].part.push_back( v );
                for( int v : p.link[ q ].parts ) p.link[ l ].parts.push_back( v );
            }
            p.link[ l ].ordered = false;
            p.link[ l ].sig = p.link[ l ].tick = "m";
            std::sort( from.begin(), from.end() );
            for( size_t q = from.size(); q-- > 0; ) open.erase( open.begin() + (long) from[ q ] );
            open.push_back( l );
            break;
        }
        case 15: {                                              /* handed on to one of two outputs, or dropped */
            if( ! big ) break;
            const int n = new_node( N_FWD );
            connect( la, n );
            for( int k = 0; k < 2; k++ ) {
                const int l = new_link( n, k );
                std::map< int, int > fresh;
                for( int q : p.link[ la ].parts ) { fresh[ q ] = p.nparts++; p.link[ l ].parts.push_back( fresh[ q ] ); }
                for( size_t j = 0; j < p.link[ la ].seq.size(); j++ )
                    if( fwd_to( n, p.link[ la ].seq[ j ] ) == k ) {
                        p.link[ l ].seq.push_back( p.link[ la ].seq[ j ] );
                        p.link[ l ].part.push_back( (uint32_t) fresh[ (int) p.link[ la ].part[ j ] ] );
                    }
                snprintf( nm, sizeof nm, "f%d%c", n, 'a' + k );
                p.link[ l ].sig = p.link[ la ].sig + nm;
                p.link[ l ].tick = p.link[ la ].tick + nm;
                p.link[ l ].ordered = p.link[ la ].ordered;
                if( k ) open.push_back( l ); else open[ a ] = l;
            }
            break;
        }
        default: break;
        }
    }
    for( int l : open ) {
        const int n = new_node( N_SINK );
        connect( l, n );
    }
}

SIM_HOST inline void plan_cfg( sim::Rng &r, sim::Cfg &c, const char *pre, long maxitems, int maxops, bool rich = true )
{
    static char nm[ 32 ];
    auto name = [&]( const char *n ) -> const char * { snprintf( nm, sizeof nm, "%s%s", pre, n ); return nm; };
    const long nops = (long) r.below( (uint64_t) maxops + 1 );
    if( nops > 4 && maxitems > 12 ) maxitems = 12;
    c.def( name( "srcs" ), (long) r.below( 3 ), 0 );
    static const long capc[] = { 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 3, 3, 5, 5, 65, 65, 65, 65, 65, 2001 };
    long caps = r.pick( capc );
    if( caps >= 65 ) caps += (long) r.below( 900 );
    c.def( name( "caps" ), caps, 0 );
    c.def( name( "items" ), r.below( 8 ) == 0 ? (long) r.below( 4 ) : 1 + (long) r.below( (uint64_t) maxitems ), 0 );
    c.def( name( "vary" ), r.below( 3 ) ? 0 : 1 + (long) r.below( 1000 ), 0 );
    c.def( name( "styles" ), r.below( 4 ) ? 1 + (long) r.below( 100000 ) : 0, 0 );
    char b[ 16 ];
    for( int i = 0; i < 10; i++ ) {
        snprintf( b, sizeof b, "op%d", i );
        long op = i < nops ? 1 + (long) r.below( rich ? 15 : 4 ) + 16 * (long) r.below( 6 ) : 0;
        if( i < nops && rich && r.below( 8 ) == 0 ) op = 96 + (long) r.below( 96 );
        c.def( name( b ), op, 0 );
    }
}

/* ---------------------------------------------------------------- kernels */
struct App;
extern const char *const port_name[ MAXPORT ];

struct App
{
    Plan     *p = nullptr;
    Account  *a = nullptr;
    int       type = 0;
    long      pace = 0;        /* now and then a kernel takes its time */
    long      slow = 0;        /* every activation of a sink takes that many microseconds */
    const sim::Cfg *cfg = nullptr;
    bool      sigs = false;    /* items carry signals that follow from their value */
    bool      tolerant = false; /* faults that may end the application are injected */
};

/** the accounting half of a kernel, on the simulator's side **/
struct Book
{
    App *app;
    int  id;
    SIM_HOST void enter( long assigned ) const;
    SIM_HOST void leave( raft::kstatus s ) const;
    raft::signal signal_of( uint64_t v ) const { return app->sigs && v % 3 == 0 ? (raft::signal)( raft::MAX_SYSTEM_SIGNAL + 1 + v % 50 ) : raft::none; }
    SIM_HOST void came_with( int port, uint64_t v, raft::signal s ) const
    {
        if( v != ~0ull && s != signal_of( v ) )
            VIOLATES( "P02 P07 P17", "wrong-signal", "kernel %d: item %ld of input %d came with signal %d, sent with %d", id, taken( port ), port, (int) s, (int) signal_of( v ) );
    }
    SIM_HOST void begin_send( int port ) const { app->a->begun[ app->p->node[ id ].out[ port ] ]++; }
    SIM_HOST void end_send( int port ) const;
    SIM_HOST void handed( uint64_t v, const void *at ) const { sim::HostScope h; app->a->where[ v ] = at; sim::probe( "objects handed on by reference" ); }
    SIM_HOST void seen( uint64_t v, const void *at ) const;
    SIM_HOST void coming( int port, long n ) const { app->a->coming[ app->p->node[ id ].in[ port ] ] = n; }
    SIM_HOST long copies() const { return lives.copies[ sim::self() & 255 ]; }
    SIM_HOST void took( int port, uint64_t v ) const;
    SIM_HOST void received( uint64_t v ) const { sim::HostScope h; app->a->got[ id ].push_back( v ); }
    SIM_HOST const NodePlan &plan() const { return app->p->node[ id ]; }
    SIM_HOST long sent( int port ) const { return app->a->sent[ app->p->node[ id ].out[ port ] ]; }
    SIM_HOST long taken( int port ) const { return app->a->taken[ app->p->node[ id ].in[ port ] ]; }
};

template < class T, bool EXT = ext_alloc< T >::value, bool CLS = inline_class_alloc< T >::value > struct Fill
{   /* plain in-place type */
    static void alloc( FIFO &f, uint64_t v, raft::signal s ) { T &r = f.allocate< T >(); r = GV< T >::make( v ); f.send( s ); }
    static void giveback( FIFO &f ) { T &r = f.allocate< T >(); r = GV< T >::make( 4711 ); f.deallocate(); }
    static void alloc_s( FIFO &f, uint64_t v, raft::signal s ) { auto r( f.allocate_s< T >() ); *r = GV< T >::make( v ); r.sig() = s; }
};
template < class T > struct Fill< T, false, true >
{
    static void alloc( FIFO &f, uint64_t v, raft::signal s ) { f.allocate< T >( GV< T >::make( v ) ); f.send( s ); }
    static void giveback( FIFO &f ) { f.allocate< T >( GV< T >::make( 4711 ) ); f.deallocate(); }
    static void alloc_s( FIFO &f, uint64_t v, raft::signal s ) { auto r( f.allocate_s< T >( GV< T >::make( v ) ) ); r.sig() = s; }
};
template < class T > struct Fill< T, true, false >
{
    static void alloc( FIFO &f, uint64_t v, raft::signal s ) { f.allocate< T >( GV< T >::make( v ) ); f.send( s ); }
    static void giveback( FIFO &f ) { f.allocate< T >( GV< T >::make( 4711 ) ); f.deallocate(); }
    static void alloc_s( FIFO &f, uint64_t v, raft::signal s ) { auto r( f.allocate_s< T >( GV< T >::make( v ) ) ); r.sig() = s; }
};

/** a window of the next n items; not for items kept outside of the link **/
template < class T, bool EXT = ext_alloc< T >::value > struct Window
{
    static bool look( FIFO &f, long n, const Book &b, int port, std::vector< uint64_t > &vals )
    {
        auto w( f.peek_range< T >( (size_t) n ) );
        if( (long) w.size() != n ) VIOLATES( "P09", "window", "window of %ld reports size %zu", n, w.size() );
        for( long j = 0; j < n; j++ ) {
            auto p( w[ (size_t) j ] );
            vals.push_back( GV< T >::get( p.ele ) );
            b.came_with( port, vals.back(), p.sig );
        }
        return true;
    }
};
template < class T > struct Window< T, true > { static bool look( FIFO &, long, const Book &, int, std::vector< uint64_t > & ) { return false; } };

template < class T > struct Node : public raft::kernel
{
    Book b;
    Node( App *app, int id ) : raft::kernel()
    {
        b.app = app;
        b.id = id;
        const NodePlan &N = b.plan();
        std::string nm[ 16 ];
        for( int i = 0; i < 16 && ( i < N.nin || i < N.nout ); i++ ) nm[ i ] = port_name[ i ];
        declare_ports< T >( input, nm, N.nin, (unsigned) N.style );
        declare_ports< T >( output, nm, N.nout, (unsigned) N.style / 3 );
        if( N.kind == N_ZIP ) sched_behav = raft::all_port;
    }
    virtual ~Node() = default;

    void put( int port, uint64_t v )
    {
        FIFO &f( output[ port_name[ port ] ] );
        b.begin_send( port );
        const raft::signal s = b.signal_of( v );
        switch( b.plan().style ? sim::wbelow( 5 ) : 0 ) {
        case 4: Fill< T >::giveback( f ); f.push< T >( GV< T >::make( v ), s ); break;
        case 1: Fill< T >::alloc( f, v, s ); break;
        case 2: Fill< T >::alloc_s( f, v, s ); break;
        case 3: { std::vector< T > one; one.push_back( GV< T >::make( v ) ); f.insert( one.begin(), one.end(), s ); break; }
        default: { const T t( GV< T >::make( v ) ); f.push< T >( t, s ); break; }
        }
        b.end_send( port );
    }
    /** several at once; only the last one of an insert can carry a signal **/
    void put_many( int port, const std::vector< uint64_t > &vals )
    {
        FIFO &f( output[ port_name[ port ] ] );
        size_t i = 0;
        while( i < vals.size() ) {
            std::vector< T > some;
            raft::signal s = raft::none;
            while( i < vals.size() && s == raft::none ) {
                s = b.signal_of( vals[ i ] );
                b.begin_send( port );
                some.push_back( GV< T >::make( vals[ i++ ] ) );
            }
            f.insert( some.begin(), some.end(), s );
            for( size_t k = 0; k < some.size(); k++ ) b.end_send( port );
        }
        sim::probe( "items sent several at once", vals.size() );
    }
    void get_many( int port, long n, std::vector< uint64_t > &vals )
    {
        FIFO &f( input[ port_name[ port ] ] );
        std::vector< uint64_t > seen;
        b.coming( port, n );
        if( sim::wbelow( 2 ) && Window< T >::look( f, n, b, port, seen ) ) {
            f.recycle( (size_t) n );
            vals = seen;
        }
        else {
            std::vector< std::pair< T, raft::signal > > v;
            for( long k = 0; k < n; k++ ) v.emplace_back( GV< T >::make( 0 ), (raft::signal) 4242 );
            f.pop_range( v, (size_t) n );
            for( auto &p : v ) {
                vals.push_back( GV< T >::get( p.first ) );
                b.seen( vals.back(), nullptr );
                b.came_with( port, vals.back(), p.second );
            }
        }
        for( uint64_t v : vals ) b.took( port, v );
        b.coming( port, 0 );
        sim::probe( "items taken several at once", (uint64_t) n );
    }
    uint64_t get( int port )
    {
        FIFO &f( input[ port_name[ port ] ] );
        uint64_t v = 0;
        switch( b.plan().style ? sim::wbelow( 4 ) : 0 ) {
        case 1: { auto r( f.pop_s< T >() ); v = GV< T >::get( *r ); b.seen( v, &*r ); b.came_with( port, v, r.sig() ); break; }
        case 2: {
            raft::signal s = (raft::signal) 12345;
            T &r = f.peek< T >( &s );
            v = GV< T >::get( r );
            b.seen( v, &r );
            if( sim::wbelow( 2 ) ) { sim::yield(); if( GV< T >::get( r ) != v ) VIOLATES( "P07 P08 P09 P10", "changed", "an item changed while it was looked at" ); }
            b.came_with( port, v, s );
            f.unpeek();
            f.recycle( 1 );
            break;
        }
        default: {
            T t( GV< T >::make( 0 ) );
            raft::signal s = (raft::signal) 12345;
            f.pop< T >( t, &s );
            v = GV< T >::get( t );
            b.seen( v, nullptr );
            b.came_with( port, v, s );
            break;
        }
        }
        b.took( port, v );
        return v;
    }
    /** hand the head of an input on to an output by reference **/
    void hand_on( int ip, int op )
    {
        FIFO &f( input[ port_name[ ip ] ] ), &o( output[ port_name[ op < 0 ? 0 : op ] ] );
        T &r = f.peek< T >();
        const uint64_t v = GV< T >::get( r );
        b.seen( v, &r );
        if( op >= 0 ) {
            b.handed( v, &r );
            b.begin_send( op );
            const long c = b.copies();
            o.push< T >( r, b.signal_of( v ) );
            if( b.copies() != c ) VIOLATES( "P10", "copied", "an object handed on by reference was copied on the way" );
            b.end_send( op );
        }
        if( sim::wbelow( 2 ) ) { f.unpeek(); f.recycle( 1 ); } else { f.recycle( 1 ); f.unpeek(); }
        b.took( ip, v );
    }
    /** look at the head and decide where it goes **/
    void forward()
    {
        const int id = b.id;
        FIFO &f( input[ port_name[ 0 ] ] );
        uint64_t v;
        {
            T &r = f.peek< T >();
            v = GV< T >::get( r );
            f.unpeek();
        }
        const int to = fwd_to( id, v );
        if( ! fwd_copy( id, v ) ) hand_on( 0, to < 2 ? to : -1 );
        else {
            const uint64_t w = get( 0 );
            if( to < 2 ) put( to, w );
        }
    }
    void dawdle() { if( b.app->pace && sim::wbelow( (uint64_t) b.app->pace ) == 0 ) sim::sleep_ns( 1000ull << sim::wbelow( 14 ) ); }

    /** a link keeps the capacity it was asked for **/
    void asked_for( FIFO &f, int l )
    {
        const long cap = b.app->p->link[ l ].cap;
        if( ! cap || b.app->a->grown ) return;
        const long is = (long) f.capacity();
        if( is != cap ) VIOLATES( "P03", "capacity", "link %d has capacity %ld instead of %ld", l, is, cap );
    }
    void capacities()
    {
        const NodePlan &N = b.plan();
        for( int i = 0; i < N.nin; i++ ) asked_for( input[ port_name[ i ] ], N.in[ i ] );
        for( int i = 0; i < N.nout; i++ ) asked_for( output[ port_name[ i ] ], N.out[ i ] );
    }
    raft::kstatus body()
    {
        const NodePlan &N = b.plan();
        if( sim::wbelow( 8 ) == 0 ) capacities();
        const int id = b.id;
        dawdle();
        if( b.app->slow && N.kind == N_SINK ) sim::sleep_ns( 1000ull * (uint64_t)( b.app->slow + (long) sim::wbelow( (uint64_t) b.app->slow ) ) );
        switch( N.kind ) {
        case N_SRC: {
            long n = ( N.style & S_BATCH ) ? 1 + (long) sim::wbelow( 5 ) : 1;
            if( n > 1 && sim::wbelow( 3 ) == 0 ) {
                std::vector< uint64_t > v;
                for( long k = b.sent( 0 ); n-- && k < N.items; k++ ) v.push_back( source_value( id, k ) );
                put_many( 0, v );
            }
            else while( n-- && b.sent( 0 ) < N.items ) put( 0, source_value( id, b.sent( 0 ) ) );
            if( b.sent( 0 ) >= N.items ) {
                if( N.style & S_LATESTOP ) {
                    if( ( N.style & 0x300 ) == 0x300 ) output[ port_name[ 0 ] ].invalidate();
                    if( sim::wbelow( 2 ) ) return raft::proceed;
                }
                if( b.app->slow && output[ port_name[ 0 ] ].capacity() > 64 ) sim::probe( "links grown by the library's own monitor" );
                return raft::stop;
            }
            return raft::proceed;
        }
        case N_PASS: case N_DUP: case N_ALT: case N_SINK: case N_FWD: {
            long n = 1;
            if( N.style & S_BATCH ) n = (long) input[ port_name[ 0 ] ].size();
            if( N.stop_after && n > N.stop_after - b.taken( 0 ) ) n = N.stop_after - b.taken( 0 );
            /* some stay as long as more comes: what they recycled is released when they are done */
            long stay = ( N.style & S_BATCH ) && ( N.style >> 12 & 3 ) == 0 ? 12 : 0;
            while( n-- > 0 ) {
                if( n == 0 && stay > 0 && ! N.stop_after ) {
                    stay--;
                    dawdle();
                    const long more = (long) input[ port_name[ 0 ] ].size();
                    if( more > 1 ) n = more - 1;
                    else if( b.app->pace ) sim::yield();
                }
                if( n && ( N.kind == N_PASS || N.kind == N_SINK ) && ! ( N.style & S_BYREF ) && sim::wbelow( 3 ) == 0 ) {
                    const long m = 2 + (long) sim::wbelow( (uint64_t)( n < 6 ? n : 6 ) );
                    std::vector< uint64_t > v;
                    get_many( 0, m, v );
                    n -= m - 1;
                    if( N.kind == N_SINK ) for( uint64_t x : v ) b.received( x );
                    else {
                        for( uint64_t &x : v ) x = step_value( x, id, 0 );
                        if( sim::wbelow( 2 ) ) put_many( 0, v );
                        else for( uint64_t x : v ) put( 0, x );
                    }
                    continue;
                }
                if( N.kind == N_PASS && ( N.style & S_BYREF ) ) { hand_on( 0, 0 ); continue; }
                if( N.kind == N_FWD ) { forward(); if( n ) dawdle(); continue; }
                const uint64_t v = get( 0 );
                switch( N.kind ) {
                case N_PASS: put( 0, step_value( v, id, 0 ) ); break;
                case N_DUP:
                    for( int k = 0; k < 2; k++ ) {
                        const long end = N.close_after[ k ];
                        if( end < 0 || b.sent( k ) < end ) put( k, step_value( v, id, k ) );
                        if( end >= 0 && b.sent( k ) >= end && ! output[ port_name[ k ] ].is_invalid() ) {
                            output[ port_name[ k ] ].invalidate();
                            sim::probe( "outputs closed by their kernel while it goes on" );
                        }
                    }
                    break;
                case N_ALT:  put( b.taken( 0 ) & 1 ? 0 : 1, step_value( v, id, 0 ) ); break;
                default:     b.received( v ); break;
                }
            }
            if( N.stop_after && b.taken( 0 ) >= N.stop_after ) return raft::stop;
            return raft::proceed;
        }
        case N_ZIP: {
            const uint64_t x = get( 0 ), y = get( 1 );
            put( 0, zip_value( x, y, id ) );
            return raft::proceed;
        }
        case N_MERGE: {
            for( int i = 0; i < N.nin; i++ ) {
                long n = (long) input[ port_name[ i ] ].size();
                if( ! ( N.style & S_BATCH ) && n > 1 ) n = 1;
                while( n-- > 0 ) put( 0, get( i ) );
            }
            return raft::proceed;
        }
        }
        return raft::stop;
    }
    virtual raft::kstatus run()
    {
        b.enter( getCoreAssignment() );
        const raft::kstatus s = body();
        b.leave( s );
        return s;
    }
};

/** an allocator that grows links at arbitrary moments **/
struct hostile_alloc : public Allocate
{
    hostile_alloc( raft::map &map, volatile bool &exit_alloc ) : Allocate( map, exit_alloc ) {}
    virtual ~hostile_alloc() = default;
    virtual void run()
    {
        auto alloc_func = [&]( PortInfo &a, PortInfo &b, void *data ) { (this)->allocate( a, b, data ); };
        {
            auto &container( (this)->source_kernels.acquire() );
            GraphTools::BFS( container, alloc_func );
            (this)->source_kernels.release();
        }
        (this)->setReady();
        auto mon_func = [&]( PortInfo &a, PortInfo &, void * ) {
            FIFO *f = a.getFIFO();
            if( sim::wbelow( 3 ) || f->is_invalid() ) return;
            const size_t cap = f->capacity();
            if( cap > 300 ) return;
            f->resize( cap + 1 + sim::wbelow( cap + 2 ), ALLOC_ALIGN_WIDTH, exit_alloc );
            if( f->capacity() > cap ) sim::probe( "links grown by the resizing allocator" );
        };
        while( ! exit_alloc ) {
            sim::sleep_ns( 20000ull << sim::wbelow( 8 ) );
            auto &container( (this)->source_kernels.acquire() );
            GraphTools::BFS( container, mon_func );
            (this)->source_kernels.release();
        }
    }
};

void app_check( App &app, const char *tags );
void app_reset( App &app );

/** asks for the cores of the account in every way there is: by number, by manipulators of one
 *  kernel or of several at once, and by several requests of which the last holds **/
inline void bind_cores( App &app, raft::kernel **k )
{
    using raft::parallel::device;
    using raft::parallel::cpu;
    using one = raft::manip< device< cpu, 1 > >;
    using two = raft::manip< raft::parallel::affinity_group< 1 >, device< cpu, 2 > >;
    using thr = raft::manip< device< cpu, 5 >, device< cpu, 3 > >;
    raft::kernel *by[ 4 ][ MAXNODE ];
    int nb[ 4 ] = { 0, 0, 0, 0 };
    for( int n = 0; n < app.p->nn; n++ ) {
        const long c = app.a->core[ n ];
        if( c < 0 ) continue;
        if( n % 3 == 1 ) k[ n ]->setCore( ( c + 2 ) % 7 );
        if( c >= 1 && c <= 3 && n % 5 ) by[ c ][ nb[ c ]++ ] = k[ n ];
        else k[ n ]->setCore( c );
    }
    auto all = []( auto m, raft::kernel **b, int n ) {
        using M = decltype( m );
        for( ; n >= 3; n -= 3, b += 3 ) M::bind( *b[ 0 ], *b[ 1 ], *b[ 2 ] );
        if( n == 2 ) M::bind( *b[ 0 ], *b[ 1 ] );
        if( n == 1 ) M::bind( *b[ 0 ] );
    };
    all( one(), by[ 1 ], nb[ 1 ] );
    all( two(), by[ 2 ], nb[ 2 ] );
    all( thr(), by[ 3 ], nb[ 3 ] );
}
/** build, execute and destroy the application **/
template < class T > void app_execute( App &app, int mode, bool *reached )
{
    Plan &p = *app.p;
    raft::kernel *k[ MAXNODE ];
    for( int n = 0; n < p.nn; n++ ) k[ n ] = new Node< T >( &app, n );
    bind_cores( app, k );
    {
        raft::map m;
        for( int l = 0; l < p.nl; l++ ) {
            const LinkPlan &L = p.link[ l ];
            /* a kernel's only port needs no name */
            const bool plain = ! p.node[ L.from ].style;
            const bool fn = ! plain && p.node[ L.from ].nout == 1 && ( p.node[ L.from ].style + (unsigned) l ) % 3 == 0;
            const bool tn = ! plain && p.node[ L.to ].nin == 1 && ( p.node[ L.to ].style + (unsigned) l ) % 3 == 1;
            m.link( k[ L.from ], fn ? raft::null_port_value : raft::port_key_type( port_name[ L.fport ] ),
                    k[ L.to ], tn ? raft::null_port_value : raft::port_key_type( port_name[ L.tport ] ), (size_t) L.cap );
        }
        app.a->grown = mode == 2;
        auto exe = [&] {
            switch( mode ) {
            case 0: m.exe< partition_dummy, simple_schedule, stdalloc, no_parallel >(); break;
            case 1: m.exe(); break;
            case 2: m.exe< partition_dummy, simple_schedule, hostile_alloc, no_parallel >(); break;
            default: m.exe< partition_basic, simple_schedule, dynalloc, no_parallel >(); break;
            }
        };
        if( reached ) {        /* memory or threads may run out */
            sim::faults_enable( true );
            try { exe(); }
            catch( ... ) { *reached = true; }
            sim::faults_enable( false );
        }
        else exe();
        app.a->over = true;
    }
    for( int n = 0; n < p.nn; n++ ) delete k[ n ];
}
inline void app_execute_type( App &app, int mode, bool *reached = nullptr )
{
    switch( app.type ) {
    case 0: return app_execute< uint64_t >( app, mode, reached );
    case 1: return app_execute< Pod >( app, mode, reached );
    case 2: return app_execute< Obj >( app, mode, reached );
    case 3: return app_execute< std::string >( app, mode, reached );
    default: return app_execute< Big >( app, mode, reached );
    }
}
#endif
