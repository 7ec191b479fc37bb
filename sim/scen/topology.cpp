/* topology.cpp - P13: applications written with the stream operators. Each
 * program is a line of stages (source, workers, splits, joins, sink); the
 * copies the library makes of a stage are told apart by the branch of the
 * items that reach them. */
#include "graph.hpp"
#include <raftio>
#include <set>

namespace
{
struct It
{
    uint64_t v;        /* value */
    uint64_t path;     /* branches entered and not yet left, one digit each */
    uint64_t trail;    /* branches ever entered */
    uint32_t idx;      /* number at its source */
    uint32_t origin;   /* which copy of the source */
};
static_assert( sizeof( It ) <= 64 && std::is_trivially_copyable< It >::value, "" );

constexpr int MAXSTAGE = 24, MAXW = 12;
enum { T_SRC, T_WORK, T_FAN, T_JOIN, T_SINK };
struct Stage
{
    int  kind;
    long n;                                   /* branches of a source, fan or join */
    std::vector< const raft::kernel * > who;  /* the kernel and its copies */
    std::vector< bool > ran;
    std::map< uint64_t, const void * > branch;
    std::map< const void *, uint64_t > of;
    long live;
    long want;                                /* kernels there should be */
    bool blind;                               /* branches are mixed here */
};
struct
{
    Stage st[ MAXSTAGE ];
    int   n;
    long  items, pace, copies;                /* copies: of the chain in front of a duplicating join */
    std::map< uint64_t, long > got;           /* value -> times */
    std::map< uint64_t, uint32_t > last;      /* (trail, origin) -> next index */
    long  arrived;
    bool  placed;                             /* by the partitioner */
    long  turn;                               /* inputs named in another order than the branches; -1: not */
    std::string text[ 256 ];
} P;
uint64_t stepv( uint64_t v, int stage ) { return scramble( v + 0x51ED27ull * (uint64_t)( stage + 1 ) ) >> 1; }
uint64_t portv( uint64_t v, long port ) { return scramble( v + 0xABCDEFull * (uint64_t)( port + 1 ) ) >> 1; }
uint64_t firstv( long i ) { return scramble( (uint64_t) i + 4242 ) >> 1; }
long choose( uint64_t v, long n ) { return (long)( scramble( v ^ 0x77 ) % (uint64_t) n ); }

SIM_HOST void born( int s, const raft::kernel *k )
{
    sim::HostScope h;
    P.st[ s ].who.push_back( k );
    P.st[ s ].live++;
}
SIM_HOST void gone( int s ) { sim::HostScope h; P.st[ s ].live--; }
/** every item that reaches one copy has come along one branch, and no two copies share a branch **/
SIM_HOST void reached( int s, const void *k, const It &t )
{
    sim::HostScope h;
    sim::progress();
    if( P.st[ s ].blind ) return;
    const uint64_t key = t.path * 64 + t.origin;
    auto b = P.st[ s ].branch.emplace( key, k );
    auto o = P.st[ s ].of.emplace( k, key );
    if( b.first->second != k ) VIOLATES( "P13 P17", "wiring", "stage %d: items of one branch reach two kernels", s );
    if( o.first->second != key ) VIOLATES( "P13 P17", "wiring", "stage %d: items of two branches reach the same kernel", s );
}
/** the branches are joined in the order of the ports, unless the links name others **/
SIM_HOST void at_port( int s, long q, const It &t )
{
    const long from = (long)( t.path % 16 ) - 1, want = P.turn < 0 || from < 0 ? from : ( from * 3 + P.turn ) % P.st[ s ].n;
    if( q != want ) VIOLATES( "P13 P17", "wiring", "stage %d: branch %ld is joined at input %ld", s, from, q );
}
SIM_HOST void arrive( const It &t )
{
    sim::HostScope h;
    sim::progress();
    P.got[ t.v ]++;
    P.arrived++;
    auto &l = P.last[ t.trail * 64 + t.origin ];
    if( t.idx + 1 <= l ) VIOLATES( "P13 P07 P17 P18", "order", "item %u arrives after item %u of the same branch", t.idx, l - 1 );
    l = t.idx + 1;
    sim::hist( t.v );
}
SIM_HOST uint32_t origin_of( const raft::kernel *k )
{
    sim::HostScope h;
    for( size_t i = 0; i < P.st[ 0 ].who.size(); i++ ) if( P.st[ 0 ].who[ i ] == k ) return (uint32_t) i;
    return 0;
}
/** under a partitioner every kernel, copies included, runs on the core it was given **/
SIM_HOST void on_core( raft::kernel *k )
{
    if( ! P.placed ) return;
    const long want = (long) k->getCoreAssignment(), is = sim::pin_of( sim::self() );
    if( want < 0 ) VIOLATES( "P16", "core", "a kernel was left out of the placement" );
    if( is != want ) VIOLATES( "P16", "core", "a kernel placed on core %ld is run by a thread bound to %ld", want, is );
    sim::probe( "activations of placed kernels" );
}
void dawdle( raft::kernel *k )
{
    on_core( k );
    if( P.pace && sim::wbelow( (uint64_t) P.pace ) == 0 ) sim::sleep_ns( 1000ull << sim::wbelow( 14 ) );
}
std::string pname( long i ) { return std::string( 1, (char)( '0' + i ) ); }
void declare( Port &p, long n )
{
    std::string nm[ MAXW ];
    for( long i = 0; i < n; i++ ) nm[ i ] = pname( i );
    declare_ports< It >( p, nm, n, (unsigned)( n * 7 + P.items ) );
}

struct Src : public raft::kernel
{
    const long nout, items; long i = 0;
    Src( long n, long it ) : raft::kernel(), nout( n ), items( it ) { declare( output, n ); born( 0, this ); }
    Src( const Src &o ) : Src( o.nout, o.items ) {}
    virtual ~Src() { gone( 0 ); }
    CLONE();
    virtual raft::kstatus run()
    {
        dawdle( this );
        if( i >= items ) return raft::stop;
        It t;
        t.v = firstv( i ); t.path = t.trail = 0; t.idx = (uint32_t) i; t.origin = origin_of( this );
        if( nout > 1 ) {
            const long p = choose( t.v, nout );
            t.v = portv( t.v, p ); t.path = t.trail = (uint64_t) p + 1;
            output[ pname( p ) ].push< It >( t );
        }
        else output[ "0" ].push< It >( t );
        sim::progress();
        return ++i >= items ? raft::stop : raft::proceed;
    }
};
struct Work : public raft::kernel
{
    const int s;
    explicit Work( int st ) : raft::kernel(), s( st ) { input.addPort< It >( "0" ); output.addPort< It >( "0" ); born( s, this ); }
    Work( const Work &o ) : Work( o.s ) {}
    virtual ~Work() { gone( s ); }
    CLONE();
    virtual raft::kstatus run()
    {
        dawdle( this );
        It t;
        input[ "0" ].pop< It >( t );
        reached( s, this, t );
        t.v = stepv( t.v, s );
        output[ "0" ].push< It >( t );
        return raft::proceed;
    }
};
struct Fan : public raft::kernel
{
    const int s; const long n;
    Fan( int st, long k ) : raft::kernel(), s( st ), n( k ) { input.addPort< It >( "0" ); declare( output, n ); born( s, this ); }
    Fan( const Fan &o ) : Fan( o.s, o.n ) {}
    virtual ~Fan() { gone( s ); }
    CLONE();
    virtual raft::kstatus run()
    {
        dawdle( this );
        It t;
        input[ "0" ].pop< It >( t );
        reached( s, this, t );
        const long p = choose( t.v, n );
        t.v = portv( t.v, p );
        t.path = t.path * 16 + (uint64_t) p + 1;
        t.trail = t.trail * 16 + (uint64_t) p + 1;
        output[ pname( p ) ].push< It >( t );
        return raft::proceed;
    }
};
struct Join : public raft::kernel
{
    const int s; const long n; const bool split;
    Join( int st, long k, bool sp ) : raft::kernel(), s( st ), n( k ), split( sp ) { declare( input, n ); output.addPort< It >( "0" ); born( s, this ); }
    Join( const Join &o ) : Join( o.s, o.n, o.split ) {}
    virtual ~Join() { gone( s ); }
    CLONE();
    virtual raft::kstatus run()
    {
        dawdle( this );
        for( long q = 0; q < n; q++ ) {
            auto &p( input[ pname( q ) ] );
            if( p.size() == 0 ) continue;
            It t;
            p.template pop< It >( t );
            t.v = stepv( t.v, s );
            if( split ) {
                at_port( s, q, t );
                t.path /= 16;
                reached( s, this, t );
            }
            output[ "0" ].push< It >( t );
            sim::progress();
        }
        return raft::proceed;
    }
};
/** joins and splits again **/
struct Knot : public raft::kernel
{
    const int s; const long n, m; const bool split;
    Knot( int st, long a, long b, bool sp ) : raft::kernel(), s( st ), n( a ), m( b ), split( sp ) { declare( input, n ); declare( output, m ); born( s, this ); }
    Knot( const Knot &o ) : Knot( o.s, o.n, o.m, o.split ) {}
    virtual ~Knot() { gone( s ); }
    CLONE();
    virtual raft::kstatus run()
    {
        dawdle( this );
        for( long q = 0; q < n; q++ ) {
            auto &in( input[ pname( q ) ] );
            if( in.size() == 0 ) continue;
            It t;
            in.template pop< It >( t );
            if( split ) { at_port( s, q, t ); t.path /= 16; }
            const long p = choose( t.v, m );
            t.v = portv( t.v, p );
            t.path = t.path * 16 + (uint64_t) p + 1;
            t.trail = t.trail * 16 + (uint64_t) p + 1;
            output[ pname( p ) ].push< It >( t );
            sim::progress();
        }
        return raft::proceed;
    }
};
struct Sink : public raft::kernel
{
    const int s;
    explicit Sink( int st ) : raft::kernel(), s( st ) { input.addPort< It >( "0" ); born( s, this ); }
    Sink( const Sink &o ) : Sink( o.s ) {}
    virtual ~Sink() { gone( s ); }
    CLONE();
    virtual raft::kstatus run()
    {
        dawdle( this );
        It t;
        input[ "0" ].pop< It >( t );
        reached( s, this, t );
        arrive( t );
        return raft::proceed;
    }
};
/** the printer writes each thread's text separately **/
struct Lines : public std::streambuf
{
    SIM_HOST void add( const char *b, size_t n ) { sim::HostScope h; P.text[ sim::self() & 255 ].append( b, n ); sim::progress(); }
    virtual int overflow( int ch ) { const char c = (char) ch; add( &c, 1 ); return ch; }
    virtual std::streamsize xsputn( const char *t, std::streamsize n ) { add( t, (size_t) n ); return n; }
};
std::ostream &operator<<( std::ostream &o, const It &t )
{
    char b[ 96 ];
    const int n = snprintf( b, sizeof b, "%lu %lu %u %u", (unsigned long) t.v, (unsigned long) t.trail, t.idx, t.origin );
    o.rdbuf()->sputn( b, n );
    return o;
}
using Printer = raft::print< It, '\n' >;
SIM_HOST void read_text()
{
    sim::HostScope h;
    for( auto &s : P.text ) {
        const char *p = s.c_str();
        while( *p ) {
            unsigned long v, tr; unsigned idx, org; int n = 0;
            if( sscanf( p, "%lu %lu %u %u%n", &v, &tr, &idx, &org, &n ) != 4 || p[ n ] != '\n' )
                VIOLATES( "P13 P14 P07 P18", "wrong-text", "damaged line in the printed text: %.40s", p );
            It t;
            t.v = v; t.path = 0; t.trail = tr; t.idx = idx; t.origin = org;
            arrive( t );
            p += n + 1;
        }
    }
}

/* ------------------------------------------------------------- programs */
SIM_HOST int stage( int kind, long n, long want, bool blind )
{
    sim::HostScope h;
    Stage &s = P.st[ P.n ];
    s.kind = kind; s.n = n; s.who.clear(); s.ran.clear(); s.branch.clear(); s.of.clear(); s.live = 0; s.want = want; s.blind = blind;
    return P.n++;
}
struct Kit
{
    std::vector< raft::kernel * > own;
    ~Kit() { for( auto *k : own ) delete k; }
    template < class K > K &keep( K *k ) { own.push_back( k ); return *k; }
};
/** appends workers to a chain, some of them handed over to the library **/
kpair &workers( const sim::Cfg &c, Kit &kit, kpair *p, int &st, int upto, unsigned &sel )
{
    for( ; st < upto; st++, sel = sel * 5 + 3 ) {
        const unsigned how = c[ "forms" ] ? (unsigned) scramble( (uint64_t) c[ "forms" ] + sel ) % 5 : 0;
        switch( how ) {
        case 4: p = &( *p >> raft::order::out >> raft::kernel::make< Work >( st ) ); break;
        case 1: p = &( *p >> raft::kernel::make< Work >( st ) ); break;
        case 2: p = &( *p >> raft::order::out >> kit.keep( new Work( st ) ) ); break;
        default: p = &( *p >> kit.keep( new Work( st ) ) ); break;
        }
    }
    return *p;
}
/** a chain of the workers st..upto-1, at least two kernels of them **/
kpair &chain( const sim::Cfg &c, Kit &kit, int &st, int upto, unsigned &sel )
{
    Work &a = kit.keep( new Work( st ) ), &b = kit.keep( new Work( st + 1 ) );
    st += 2;
    kpair *p = &( a >> b );
    return workers( c, kit, p, st, upto, sel );
}
SIM_HOST void lists( kernel_pair_t &kp, int first, int last, bool other_last, const raft::kernel *lastk, long wantlast )
{
    sim::HostScope h;
    std::set< const raft::kernel * > src, dst, want( P.st[ first ].who.begin(), P.st[ first ].who.end() );
    const auto s = kp.getSrc(), d = kp.getDst();
    for( auto it = s.first; it != s.second; ++it ) src.insert( &it->get() );
    for( auto it = d.first; it != d.second; ++it ) dst.insert( &it->get() );
    if( src.size() != kp.getSrcSize() || src != want ) VIOLATES( "P13 P17", "source-list", "the list of sources names %zu kernels (%zu different) in place of the %zu there are", (size_t) kp.getSrcSize(), src.size(), want.size() );
    if( other_last ) {
        if( dst.size() != kp.getDstSize() || (long) dst.size() != wantlast || ! dst.count( lastk ) ) VIOLATES( "P13 P17", "destination-list", "the list of destinations names %zu kernels in place of %ld", dst.size(), wantlast );
        return;
    }
    want = std::set< const raft::kernel * >( P.st[ last ].who.begin(), P.st[ last ].who.end() );
    if( dst.size() != kp.getDstSize() || dst != want ) VIOLATES( "P13 P17", "destination-list", "the list of destinations names %zu kernels (%zu different) in place of the %zu there are", (size_t) kp.getDstSize(), dst.size(), want.size() );
}
SIM_HOST void counted()
{
    sim::HostScope h;
    for( int i = 0; i < P.n; i++ )
        if( (long) P.st[ i ].who.size() != P.st[ i ].want )
            VIOLATES( "P13 P17", "copies", "stage %d of %d consists of %zu kernels, the graph described has %ld", i, P.n, P.st[ i ].who.size(), P.st[ i ].want );
}
SIM_HOST void compared( long copies )
{
    sim::HostScope h;
    std::map< uint64_t, long > want;
    for( long i = 0; i < P.items; i++ ) {
        uint64_t v = firstv( i );
        for( int s = 0; s < P.n; s++ ) {
            const Stage &x = P.st[ s ];
            if( x.kind == T_WORK || x.kind == T_JOIN ) v = stepv( v, s );
            else if( ( x.kind == T_SRC && x.n > 1 ) || x.kind == T_FAN ) v = portv( v, choose( v, x.n ) );
        }
        want[ v ] += copies;
    }
    for( auto &g : P.got ) if( ! want.count( g.first ) ) VIOLATES( "P13 P07 P17 P18", "wrong-result", "a value arrived that the graph described does not compute" );
    for( auto &w : want ) if( P.got[ w.first ] != w.second ) VIOLATES( "P13 P07 P17 P18", "wrong-result", "a value arrived %ld times in place of %ld", P.got[ w.first ], w.second );
    for( int i = 0; i < P.n; i++ ) sim::probe( "kernels in the graphs", P.st[ i ].who.size() );
    sim::probe( "items delivered", (uint64_t) P.arrived );
}
SIM_HOST void reset( const sim::Cfg &c )
{
    sim::HostScope h;
    P.n = 0; P.items = c[ "items" ]; P.pace = c[ "pace" ]; P.got.clear(); P.last.clear(); P.arrived = 0; P.placed = c[ "mode" ] == 3; P.turn = -1;
    for( auto &t : P.text ) t.clear();
}
void execute( raft::map &m, long mode )
{
    may_run_out( [&] {
    switch( mode ) {
    case 0: m.exe< partition_dummy, simple_schedule, stdalloc, no_parallel >(); break;
    case 1: m.exe(); break;
    case 3: m.exe< partition_basic, simple_schedule, dynalloc, no_parallel >(); break;
    default: m.exe< partition_dummy, simple_schedule, hostile_alloc, no_parallel >(); break;
    }
    } );
}
void run( const sim::Cfg &c )
{
    lives_reset();
    reset( c );
    const uint64_t mark = sim::heap_mark();
    long copies = 1;
    bool printed = false;
    Lines lines;
    std::ostream text( &lines );
    {
        Kit kit;
        unsigned sel = 1;
        {
            raft::map m;
            const int na = (int) c[ "pre" ], nb = (int) c[ "post" ];
            const long deep = c[ "shape" ] == 8, w = deep ? 2 + c[ "width" ] % 2 : c[ "width" ], w2 = deep ? 2 + c[ "width2" ] % 2 : c[ "width2" ];
            int st = 0;
            printed = c[ "print" ];
            switch( c[ "shape" ] ) {
            case 0: {                                   /* a chain */
                st = stage( T_SRC, 1, 1, false );
                const int f = P.n;
                for( int i = 0; i < na; i++ ) stage( T_WORK, 0, 1, false );
                const int l = P.n;
                stage( T_SINK, 0, printed ? 0 : 1, false );
                Src &g = kit.keep( new Src( 1, P.items ) );
                raft::kernel *e = printed ? (raft::kernel *) new Printer( text ) : (raft::kernel *) new Sink( l );
                kit.keep( e );
                int s = f;
                kpair *p;
                if( na == 0 ) p = c[ "forms" ] % 2 ? &( g >> *e ) : &( g >> raft::order::out >> *e );
                else {
                    p = &( g >> kit.keep( new Work( s ) ) );
                    s++;
                    p = &( workers( c, kit, p, s, l, sel ) >> *e );
                }
                auto kp = m += *p;
                counted();
                lists( kp, 0, l, printed, e, 1 );
                break;
            }
            case 1: case 2: {                           /* split, workers, [join, workers,] sink */
                const bool join = c[ "shape" ] == 1, lib = join && c[ "libjoin" ];
                stage( T_SRC, w, 1, false );
                st = P.n;
                for( int i = 0; i < na; i++ ) stage( T_WORK, 0, w, false );
                int j = -1, x = P.n;
                if( join ) {
                    if( ! lib ) j = stage( T_JOIN, w, 1, false );
                    x = P.n;
                    for( int i = 0; i < nb; i++ ) stage( T_WORK, 0, 1, lib );
                }
                const int l = stage( T_SINK, 0, printed ? 0 : join ? 1 : w, lib );
                Src &g = kit.keep( new Src( w, P.items ) );
                raft::kernel *e = printed ? (raft::kernel *) new Printer( text ) : (raft::kernel *) new Sink( l );
                kit.keep( e );
                raft::kernel *jn = nullptr;
                if( join ) {
                    jn = lib ? (raft::kernel *) new raft::join< It >( (size_t) w ) : (raft::kernel *) new Join( j, w, true );
                    kit.keep( jn );
                }
                kpair *p;
                const int upto = st + na;
                if( ! join ) {
                    if( na == 0 ) p = &( g <= *e );
                    else if( na == 1 ) p = &( g <= kit.keep( new Work( st ) ) >> *e );
                    else p = &( g <= ( chain( c, kit, st, upto, sel ) >> *e ) );
                }
                else {
                    kpair *left;
                    if( na == 1 ) left = &( g <= kit.keep( new Work( st ) ) );
                    else left = &( g <= chain( c, kit, st, upto, sel ) );
                    int y = x;
                    if( nb == 0 ) p = c[ "paren" ] ? &( ( *left >= *jn ) >> *e ) : &( *left >= *jn >> *e );
                    else {
                        Work &q = kit.keep( new Work( y ) );
                        y++;
                        if( c[ "paren" ] ) p = &( workers( c, kit, &( ( *left >= *jn ) >> q ), y, x + nb, sel ) >> *e );
                        else p = &( *left >= ( workers( c, kit, &( *jn >> q ), y, x + nb, sel ) >> *e ) );
                    }
                }
                auto kp = m += *p;
                counted();
                lists( kp, 0, l, printed, e, join ? 1 : w );
                break;
            }
            case 3: {                                   /* a chain duplicated in front of a join */
                copies = w;
                stage( T_SRC, 1, w, false );
                st = P.n;
                for( int i = 0; i < na; i++ ) stage( T_WORK, 0, w, false );
                const bool lib = c[ "libjoin" ];
                int j = -1;
                if( ! lib ) j = stage( T_JOIN, w, 1, true );
                const int x = P.n;
                for( int i = 0; i < nb; i++ ) stage( T_WORK, 0, 1, true );
                const int l = stage( T_SINK, 0, printed ? 0 : 1, true );
                Src &g = kit.keep( new Src( 1, P.items ) );
                raft::kernel *e = printed ? (raft::kernel *) new Printer( text ) : (raft::kernel *) new Sink( l );
                kit.keep( e );
                raft::kernel *jn = lib ? (raft::kernel *) new raft::join< It >( (size_t) w ) : (raft::kernel *) new Join( j, w, false );
                kit.keep( jn );
                const int upto = st + na;
                int y = x;
                kpair *right;
                if( nb == 0 ) right = &( *jn >> *e );
                else {
                    Work &q = kit.keep( new Work( y ) );
                    y++;
                    right = &( workers( c, kit, &( *jn >> q ), y, x + nb, sel ) >> *e );
                }
                kpair *p;
                if( na == 0 ) p = &( g >= *right );
                else {
                    kpair *a = &( g >> kit.keep( new Work( st ) ) );
                    st++;
                    p = &( workers( c, kit, a, st, upto, sel ) >= *right );
                }
                auto kp = m += *p;
                counted();
                lists( kp, 0, l, printed, e, 1 );
                break;
            }
            case 4: {                                   /* a split within a split, each joined again */
                stage( T_SRC, w, 1, false );
                const int f = stage( T_FAN, w2, w, false );
                st = P.n;
                const int nw = na < 1 ? 1 : na;
                for( int i = 0; i < nw; i++ ) stage( T_WORK, 0, w * w2, false );
                const int upto = P.n;
                const int j1 = stage( T_JOIN, w2, w, false );
                const int x = P.n;
                for( int i = 0; i < nb; i++ ) stage( T_WORK, 0, w, false );
                const int j2 = stage( T_JOIN, w, 1, false );
                const int l = stage( T_SINK, 0, printed ? 0 : 1, false );
                Src &g = kit.keep( new Src( w, P.items ) );
                Fan &fn = kit.keep( new Fan( f, w2 ) );
                Join &a = kit.keep( new Join( j1, w2, true ) ), &b = kit.keep( new Join( j2, w, true ) );
                raft::kernel *e = printed ? (raft::kernel *) new Printer( text ) : (raft::kernel *) new Sink( l );
                kit.keep( e );
                kpair *in = nw == 1 ? &( fn <= kit.keep( new Work( st ) ) ) : &( fn <= chain( c, kit, st, upto, sel ) );
                kpair *mid;
                int y = x;
                if( nb == 0 ) mid = &( *in >= a );
                else {
                    Work &q = kit.keep( new Work( y ) );
                    y++;
                    if( c[ "paren" ] ) mid = &( workers( c, kit, &( ( *in >= a ) >> q ), y, x + nb, sel ) );
                    else mid = &( *in >= workers( c, kit, &( a >> q ), y, x + nb, sel ) );
                }
                kpair *p = &( ( g <= *mid ) >= b >> *e );
                auto kp = m += *p;
                counted();
                lists( kp, 0, l, printed, e, 1 );
                break;
            }
            case 5: {                                   /* split within a split into multi-port printers, one per outer branch */
                printed = true;
                stage( T_SRC, w, 1, false );
                const int f = stage( T_FAN, w2, w, false );
                st = P.n;
                const int nw = na < 1 ? 1 : na;
                for( int i = 0; i < nw; i++ ) stage( T_WORK, 0, w * w2, false );
                const int upto = P.n;
                Src &g = kit.keep( new Src( w, P.items ) );
                Fan &fn = kit.keep( new Fan( f, w2 ) );
                Printer &e = kit.keep( new Printer( text, (size_t) w2 ) );
                kpair *in = nw == 1 ? &( fn <= kit.keep( new Work( st ) ) ) : &( fn <= chain( c, kit, st, upto, sel ) );
                auto kp = m += ( g <= ( *in >= e ) );
                counted();
                lists( kp, 0, 0, true, &e, w );
                break;
            }
            case 8: {                                   /* splits three deep */
                const long w3 = 2 + c[ "post" ] % 2;
                stage( T_SRC, w, 1, false );
                const int f1 = stage( T_FAN, w2, w, false ), f2 = stage( T_FAN, w3, w * w2, false );
                st = P.n;
                const int nw = na < 1 ? 1 : na;
                for( int i = 0; i < nw; i++ ) stage( T_WORK, 0, w * w2 * w3, false );
                const int upto = P.n;
                const int j1 = stage( T_JOIN, w3, w * w2, false ), j2 = stage( T_JOIN, w2, w, false ), j3 = stage( T_JOIN, w, 1, false );
                const int l = stage( T_SINK, 0, printed ? 0 : 1, false );
                Src &g = kit.keep( new Src( w, P.items ) );
                Fan &a1 = kit.keep( new Fan( f1, w2 ) ), &a2 = kit.keep( new Fan( f2, w3 ) );
                Join &b1 = kit.keep( new Join( j1, w3, true ) ), &b2 = kit.keep( new Join( j2, w2, true ) ), &b3 = kit.keep( new Join( j3, w, true ) );
                raft::kernel *e = printed ? (raft::kernel *) new Printer( text ) : (raft::kernel *) new Sink( l );
                kit.keep( e );
                kpair *in = nw == 1 ? &( a2 <= kit.keep( new Work( st ) ) ) : &( a2 <= chain( c, kit, st, upto, sel ) );
                kpair *p = &( ( g <= ( ( a1 <= ( *in >= b1 ) ) >= b2 ) ) >= b3 >> *e );
                auto kp = m += *p;
                counted();
                lists( kp, 0, l, printed, e, 1 );
                break;
            }
            case 9: {                                   /* split and joined, split and joined again; or duplicated in front of the first join */
                const bool dup = c[ "forms" ] % 2;
                const int nw = na < 1 ? 1 : na, nv = nb < 1 ? 1 : nb;
                stage( T_SRC, dup ? 1 : w, dup ? w : 1, false );
                if( dup ) copies = w;
                st = P.n;
                for( int i = 0; i < nw; i++ ) stage( T_WORK, 0, w, false );
                const int k = stage( T_FAN, w2, 1, dup );
                const int x = P.n;
                for( int i = 0; i < nv; i++ ) stage( T_WORK, 0, w2, dup );
                const int upto = P.n;
                const int j = stage( T_JOIN, w2, 1, dup ), l = stage( T_SINK, 0, printed ? 0 : 1, dup );
                Src &g = kit.keep( new Src( dup ? 1 : w, P.items ) );
                Knot &kn = kit.keep( new Knot( k, w, w2, ! dup ) );
                Join &jn = kit.keep( new Join( j, w2, true ) );
                raft::kernel *e = printed ? (raft::kernel *) new Printer( text ) : (raft::kernel *) new Sink( l );
                kit.keep( e );
                int y = x;
                kpair *right = nv == 1 ? &( kn <= kit.keep( new Work( y ) ) ) : &( kn <= chain( c, kit, y, upto, sel ) );
                kpair *left;
                if( dup ) { kpair *a = &( g >> kit.keep( new Work( st ) ) ); st++; left = &workers( c, kit, a, st, x - 1, sel ); }
                else if( nw == 1 ) left = &( g <= kit.keep( new Work( st ) ) );
                else left = &( g <= chain( c, kit, st, x - 1, sel ) );
                kpair *p = &( ( *left >= *right ) >= jn >> *e );
                auto kp = m += *p;
                counted();
                lists( kp, 0, l, printed, e, 1 );
                break;
            }
            case 7: {                                   /* short programs, kernels handed over to the library */
                const long form = c[ "forms" ] % 14;
                printed = false;
                using raft::kernel;
                if( form < 4 ) {                        /* source >> worker >> sink, in every mixture */
                    stage( T_SRC, 1, 1, false );
                    const int k = stage( T_WORK, 0, 1, false ), l = stage( T_SINK, 0, 1, false );
                    kpair *p;
                    if( form == 0 ) p = &( kernel::make< Src >( 1, P.items ) >> kernel::make< Work >( k ) >> kernel::make< Sink >( l ) );
                    else if( form == 1 ) p = &( kit.keep( new Src( 1, P.items ) ) >> kernel::make< Work >( k ) >> kit.keep( new Sink( l ) ) );
                    else if( form == 2 ) p = &( kit.keep( new Src( 1, P.items ) ) >> raft::order::out >> kernel::make< Work >( k ) >> raft::order::out >> kernel::make< Sink >( l ) );
                    else p = &( kernel::make< Src >( 1, P.items ) >> kernel::make< Work >( k ) >> raft::order::out >> kit.keep( new Sink( l ) ) );
                    auto kp = m += *p;
                    counted();
                    lists( kp, 0, l, false, nullptr, 1 );
                }
                else if( form < 8 ) {                   /* one copy of the rest for every output */
                    stage( T_SRC, w, 1, false );
                    const int k = form < 6 ? stage( T_WORK, 0, w, false ) : 0, l = stage( T_SINK, 0, w, false );
                    kpair *p;
                    if( form == 4 ) p = &( kernel::make< Src >( w, P.items ) <= kernel::make< Work >( k ) >> kernel::make< Sink >( l ) );
                    else if( form == 5 ) p = &( kernel::make< Src >( w, P.items ) <= ( kit.keep( new Work( k ) ) >> kit.keep( new Sink( l ) ) ) );
                    else if( form == 6 ) p = &( kernel::make< Src >( w, P.items ) <= kernel::make< Sink >( l ) );
                    else p = &( kit.keep( new Src( w, P.items ) ) <= kit.keep( new Sink( l ) ) );
                    auto kp = m += *p;
                    counted();
                    lists( kp, 0, l, false, nullptr, w );
                }
                else if( form < 12 ) {                  /* one copy of what comes before for every input */
                    copies = w;
                    stage( T_SRC, 1, w, false );
                    const int k = form == 10 ? stage( T_WORK, 0, w, false ) : 0, j = stage( T_JOIN, w, 1, true ), l = stage( T_SINK, 0, 1, true );
                    kpair *p;
                    if( form == 8 ) p = &( ( kernel::make< Src >( 1, P.items ) >= kernel::make< Join >( j, w, false ) ) >> kernel::make< Sink >( l ) );
                    else if( form == 9 ) p = &( ( kit.keep( new Src( 1, P.items ) ) >= kit.keep( new Join( j, w, false ) ) ) >> kit.keep( new Sink( l ) ) );
                    else if( form == 10 ) p = &( ( ( kit.keep( new Src( 1, P.items ) ) >> kit.keep( new Work( k ) ) ) >= kernel::make< Join >( j, w, false ) ) >> kernel::make< Sink >( l ) );
                    else p = &( kernel::make< Src >( 1, P.items ) >= ( kernel::make< Join >( j, w, false ) >> kernel::make< Sink >( l ) ) );
                    auto kp = m += *p;
                    counted();
                    lists( kp, 0, l, false, nullptr, 1 );
                }
                else {                                  /* split, workers and join */
                    stage( T_SRC, w, 1, false );
                    const int k = stage( T_WORK, 0, w, false ), j = stage( T_JOIN, w, 1, false ), l = stage( T_SINK, 0, 1, false );
                    kpair *p;
                    if( form == 12 ) p = &( ( ( kernel::make< Src >( w, P.items ) <= kernel::make< Work >( k ) ) >= kernel::make< Join >( j, w, true ) ) >> kernel::make< Sink >( l ) );
                    else p = &( ( kit.keep( new Src( w, P.items ) ) <= kit.keep( new Work( k ) ) ) >= ( kernel::make< Join >( j, w, true ) >> kernel::make< Sink >( l ) ) );
                    auto kp = m += *p;
                    counted();
                    lists( kp, 0, l, false, nullptr, 1 );
                }
                break;
            }
            default: {                                  /* named ports, several statements */
                stage( T_SRC, w, 1, false );
                const int first = P.n;
                stage( T_WORK, 0, w, false );
                const int j = stage( T_JOIN, w, 1, false );
                const int l = stage( T_SINK, 0, printed ? 0 : 1, false );
                Src &g = kit.keep( new Src( w, P.items ) );
                Join &jn = kit.keep( new Join( j, w, true ) );
                raft::kernel *e = printed ? (raft::kernel *) new Printer( text ) : (raft::kernel *) new Sink( l );
                kit.keep( e );
                if( w % 3 ) P.turn = c[ "post" ];
                for( long i = 0; i < w; i++ ) {
                    Work &k = kit.keep( new Work( first ) );
                    const std::string gi = pname( i ), ji = pname( w % 3 ? ( i * 3 + c[ "post" ] ) % w : i );
                    if( c[ "paren" ] && i == w - 1 ) { auto kp = m += g[ gi ] >> k[ "0" ][ "0" ] >> jn[ ji ][ "0" ] >> *e; (void) kp; }
                    else {
                        m += g[ gi ] >> k[ "0" ];
                        m += k >> jn[ ji ];
                        if( i == w - 1 ) m += jn >> *e;
                    }
                }
                counted();
                break;
            }
            }
            execute( m, c[ "mode" ] );
        }
        if( printed ) read_text();
        compared( copies );
    }
    for( int i = 0; i < P.n; i++ ) if( P.st[ i ].live ) VIOLATES( "P13 P08 P17", "kernels-left", "%ld kernels of stage %d are left", P.st[ i ].live, i );
    app_over( mark );
}
/** one program after another in one process, each from the start **/
void run_again( const sim::Cfg &c )
{
    for( long i = 0; i < c[ "times" ]; i++ ) {
        sim::Cfg d( c );
        char nm[ 8 ];
        snprintf( nm, sizeof nm, "shape%ld", i );
        for( int k = 0; i && k < d.n; k++ ) if( strcmp( d.name[ k ], "shape" ) == 0 ) d.val[ k ] = c[ nm ];
        run( d );
    }
    sim::probe( "programs executed one after another", (uint64_t) c[ "times" ] );
}
void gen( sim::Rng &r, sim::Cfg &c )
{
    static const long shapes[] = { 0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 6, 7, 7, 8, 9, 9 };
    c.def( "shape", r.pick( shapes ), 0 );
    const bool join = c[ "shape" ] == 1;
    c.def( "pre", join ? 1 + (long) r.below( 3 ) : (long) r.below( 4 ), join );
    c.def( "post", (long) r.below( 3 ), 0 );
    c.def( "width", r.below( 16 ) ? 2 + (long) r.below( 3 ) : 5 + (long) r.below( MAXW - 4 ), 2 );
    c.def( "width2", 2 + (long) r.below( 3 ), 2 );
    c.def( "forms", r.below( 2 ) ? 1 + (long) r.below( 1000 ) : 0, 0 );
    c.def( "paren", (long) r.below( 2 ), 0 );
    c.def( "libjoin", r.below( 3 ) == 0, 0 );
    c.def( "print", r.below( 4 ) == 0, 0 );
    c.def( "items", r.below( 8 ) ? (long) r.below( 16 ) : (long) r.below( 50 ), 0 );
    static const long modes[] = { 0, 0, 1, 2 };
    c.def( "mode", r.pick( modes ), 0 );
    c.def( "pace", r.below( 2 ) ? 0 : 1 + (long) r.below( 8 ), 0 );
}
void gen_placed( sim::Rng &r, sim::Cfg &c )
{
    gen( r, c );
    c.def( "mode", 3, 3 );
    c.def( "print", 0, 0 );
}
void gen_again( sim::Rng &r, sim::Cfg &c )
{
    gen( r, c );
    static const long shapes[] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9 };
    c.def( "times", 2 + (long) r.below( 2 ), 2 );
    if( c[ "width" ] > 6 ) c.def( "width", 5 + (long) r.below( 2 ), 2 );
    c.def( "shape1", r.pick( shapes ), 0 );
    c.def( "shape2", r.pick( shapes ), 0 );
    if( c[ "pre" ] == 0 ) c.def( "pre", 1, 1 );
    c.def( "items", (long) r.below( 12 ), 0 );
}
void gen_out_topology( sim::Rng &r, sim::Cfg &c ) { gen( r, c ); c.def( "early", (long) r.below( 2 ), 0 ); }
void run_out_topology( const sim::Cfg &c ) { run_out( run, c ); }
sim::Register r18topology( { "P18", "topology.exhaustion", gen_out_topology, run_out_topology, sim::SCHED_FAULTS | FBIT( sim::F_ALLOC ) | FBIT( sim::F_THREAD ), 3 } );
sim::Register r08( { "P08", "topology.life", gen, run, sim::SCHED_FAULTS, 3 } );
sim::Register r06( { "P06", "topology.ends", gen, run, sim::SCHED_FAULTS, 2 } );
sim::Register r07( { "P07", "topology.result", gen, run, sim::SCHED_FAULTS, 2 } );
sim::Register r16( { "P16", "topology.placed", gen_placed, run, sim::SCHED_FAULTS, 3 } );
sim::Register r17( { "P17", "topology.again", gen_again, run_again, sim::SCHED_FAULTS, 2 } );
sim::Register r13( { "P13", "topology", gen, run, sim::SCHED_FAULTS, 10 } );
}
