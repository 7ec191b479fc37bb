/* fileread.cpp - P15: a file read in chunks, and searched. The file lives in
 * the simulator; opening, reading and seeking may fail there. */
#include "graph.hpp"
#include <raftio>
#include <memory>
#include <raftalgorithm>
#include <iterator>

namespace
{
struct Seen { size_t start, len; uint64_t index; std::string bytes; long sig; };
struct
{
    std::string  file;
    std::vector< Seen > chunk[ 4 ];
    std::vector< std::pair< size_t, size_t > > match[ 4 ];
    long pace, outs, over, data;
    bool search, io;
} F;
void dawdle() { if( F.pace && sim::wbelow( (uint64_t) F.pace ) == 0 ) sim::sleep_ns( 1000ull << sim::wbelow( 14 ) ); }

/** what a chunk says must be what the file holds **/
SIM_HOST void take( int port, const char *buf, size_t start, size_t len, uint64_t index, long sig )
{
    sim::HostScope h;
    if( (long) len > F.data ) VIOLATES( "P15", "chunk-length", "a chunk of %ld bytes is %zu long", F.data, len );
    /* when an operation on the file failed, a chunk without bytes claims nothing */
    if( F.io && ! len && start > F.file.size() ) start = F.file.size();
    if( start > F.file.size() || start + len > F.file.size() )
        VIOLATES( "P15", "chunk-position", "chunk %lu covers %zu..%zu of a file of %zu bytes", (unsigned long) index, start, start + len, F.file.size() );
    if( memcmp( buf, F.file.data() + start, len ) ) VIOLATES( "P15", "wrong-bytes", "chunk %lu at %zu+%zu does not hold the bytes of the file", (unsigned long) index, start, len );
    if( buf[ len ] ) VIOLATES( "P15", "chunk-length", "chunk %lu does not end after its %zu bytes", (unsigned long) index, len );
    Seen s;
    s.start = start; s.len = len; s.index = index; s.sig = sig;
    auto &v = F.chunk[ port ];
    if( ! v.empty() && v.back().index >= index ) VIOLATES( "P15", "chunk-order", "output %d: chunk %lu after chunk %lu", port, (unsigned long) index, (unsigned long) v.back().index );
    v.push_back( s );
    sim::hist( ( (uint64_t) port << 32 ) + index );
    sim::progress();
}
/** the same chunk, byte by byte, as a user's loop sees it **/
template < class C > void walk( C &c )
{
    size_t n = 0;
    for( auto it( c.begin() ); it != c.end(); ++it, n++ ) {
        if( n >= c.length || ! ( it < c.end() ) ) VIOLATES( "P15", "chunk-walk", "going through chunk %lu of %zu bytes does not end after them", (unsigned long) c.index, c.length );
        if( it.location() != c.start_position + n )
            VIOLATES( "P15", "chunk-walk", "byte %zu of chunk %lu at %zu says it is at %zu", n, (unsigned long) c.index, c.start_position, it.location() );
        if( *it != c.buffer[ n ] || c[ n ] != c.buffer[ n ] ) VIOLATES( "P15", "chunk-walk", "byte %zu of chunk %lu is another one when walked to", n, (unsigned long) c.index );
    }
    if( n != c.length ) VIOLATES( "P15", "chunk-walk", "going through chunk %lu of %zu bytes ends after %zu", (unsigned long) c.index, c.length, n );
    if( n ) {
        auto it( c.begin() );
        const size_t k = (size_t) sim::wbelow( n );
        it += k;
        if( ! ( it <= c.end() ) || ! ( it == it ) || *it != c.buffer[ k ] ) VIOLATES( "P15", "chunk-walk", "byte %zu of chunk %lu is another one when jumped to", k, (unsigned long) c.index );
        if( k + 1 < n && it[ 1 ] != c.buffer[ k + 1 ] ) VIOLATES( "P15", "chunk-walk", "the byte after byte %zu of chunk %lu is another one", k, (unsigned long) c.index );
    }
    sim::probe( "chunks walked" );
}
template < class C > struct Take : public raft::kernel
{
    int no; long style;
    Take( int n, long s ) : raft::kernel(), no( n ), style( s ) { input.addPort< C >( "0" ); }
    virtual raft::kstatus run()
    {
        dawdle();
        auto &p( input[ "0" ] );
        raft::signal sg( raft::none );
        if( style == 0 ) {
            C c;
            p.template pop< C >( c, &sg );
            take( no, c.buffer, c.start_position, c.length, c.index, (long) sg );
            if( sim::wbelow( 4 ) == 0 ) walk( c );
        }
        else if( style == 1 ) {
            auto &c( p.template peek< C >( &sg ) );
            dawdle();
            take( no, c.buffer, c.start_position, c.length, c.index, (long) sg );
            if( sim::wbelow( 4 ) == 0 ) walk( c );
            p.unpeek();
            p.recycle();
        }
        else {
            auto c( p.template pop_s< C >() );
            sg = c.sig();
            take( no, (*c).buffer, (*c).start_position, (*c).length, (*c).index, (long) sg );
        }
        return raft::proceed;
    }
};
/** passes chunks on by copy **/
template < class C > struct Hand : public raft::kernel
{
    Hand() : raft::kernel() { input.addPort< C >( "0" ); output.addPort< C >( "0" ); }
    virtual raft::kstatus run()
    {
        dawdle();
        C c;
        raft::signal sg( raft::none );
        input[ "0" ].template pop< C >( c, &sg );
        auto &o( output[ "0" ].template allocate< C >() );
        o = c;
        output[ "0" ].send( sg );
        sim::progress();
        return raft::proceed;
    }
};
struct Hits : public raft::kernel
{
    int no;
    explicit Hits( int n ) : raft::kernel(), no( n ) { input.addPort< raft::match_t >( "0" ); }
    virtual raft::kstatus run()
    {
        dawdle();
        raft::match_t m;
        input[ "0" ].pop< raft::match_t >( m );
        note( m );
        return raft::proceed;
    }
    SIM_HOST void note( const raft::match_t &m )
    {
        sim::HostScope h;
        F.match[ no ].push_back( m );
        if( ! F.io && F.match[ no ].size() > 2 * F.file.size() + 16 )
            VIOLATES( "P15", "double-match", "%zu matches reported so far in %zu bytes", F.match[ no ].size(), F.file.size() );
        sim::hist( m.first );
        sim::progress();
    }
};
SIM_HOST void chunks_cover( long o )
{
    sim::HostScope h;
    std::vector< Seen > all;
    for( int i = 0; i < F.outs; i++ ) for( auto &s : F.chunk[ i ] ) all.push_back( s );
    std::sort( all.begin(), all.end(), []( const Seen &a, const Seen &b ) { return a.index < b.index; } );
    size_t end = 0;
    for( size_t i = 0; i < all.size(); i++ ) {
        const Seen &s = all[ i ];
        if( s.index != i ) VIOLATES( "P15", "chunk-order", "chunk %zu is missing or came twice", i );
        if( F.io ) continue;
        if( i == 0 ? s.start != 0 : s.start != end - (size_t) o )
            VIOLATES( "P15", "overlap", "chunk %zu starts at %zu, the one before ended at %zu, overlap asked for %ld", i, s.start, end, o );
        if( i && s.start + s.len <= end ) VIOLATES( "P15", "surplus", "chunk %zu (%zu+%zu) brings nothing new", i, s.start, s.len );
        if( F.outs == 1 && ( s.sig == raft::eof ) != ( i + 1 == all.size() ) )
            VIOLATES( "P15", "end-signal", "chunk %zu of %zu came %s the end-of-file signal", i, all.size(), s.sig == raft::eof ? "with" : "without" );
        end = s.start + s.len;
    }
    if( ! F.io && end != F.file.size() ) VIOLATES( "P15", "coverage", "%zu of %zu bytes were read", end, F.file.size() );
    sim::probe( "chunks read", all.size() );
}
SIM_HOST void matches_true( const std::string &term )
{
    sim::HostScope h;
    std::map< size_t, int > got;
    for( int i = 0; i < F.outs; i++ ) for( auto &m : F.match[ i ] ) {
        if( m.second - m.first != term.size() || m.first > F.file.size() || F.file.compare( m.first, term.size(), term ) )
            VIOLATES( "P15", "false-match", "a match reported at %zu..%zu is not one", m.first, m.second );
        got[ m.first ]++;
    }
    long n = 0;
    for( size_t at = F.file.find( term ); at != std::string::npos; at = F.file.find( term, at + 1 ) ) {
        n++;
        if( F.io ) continue;
        if( ! got.count( at ) ) VIOLATES( "P15", "missed-match", "the match at %zu was not reported", at );
    }
    if( ! F.io ) for( auto &g : got ) if( g.second > 1 ) VIOLATES( "P15", "double-match", "the match at %zu was reported %d times", g.first, g.second );
    sim::probe( "matches", (uint64_t) n );
}

void go( raft::map &m, long mode )
{
    switch( mode ) {
    case 0: m.exe< partition_dummy, simple_schedule, stdalloc, no_parallel >(); break;
    case 1: m.exe(); break;
    default: m.exe< partition_dummy, simple_schedule, hostile_alloc, no_parallel >(); break;
    }
}
size_t cap_of( const sim::Cfg &c, int i )
{
    static const long small[] = { 1, 1, 2, 3, 4, 8 };
    const long k = c[ "caps" ];
    return k == 0 ? 0 : (size_t) small[ scramble( (uint64_t)( k * 19 + i ) ) % 6 ];
}
template < size_t SZ > void read_it( const sim::Cfg &c, long o, const std::string &term )
{
    using C  = raft::filechunk< SZ >;
    using fr = raft::filereader< C, false >;
    static const char *const pn[] = { "0", "1", "2", "3" };
    std::vector< raft::kernel * > own;
    {
        if( F.io ) sim::faults_enable( true );
        /* what is left out means no overlap and one output */
        const int said = o == 0 && F.outs == 1 ? (int)( c[ "styles" ] % 3 ) : F.outs == 1 ? 1 + (int)( c[ "styles" ] % 2 ) : 2;
        std::unique_ptr< fr > reader( said == 0 ? new fr( "/sim/input" ) : said == 1 ? new fr( "/sim/input", o ) : new fr( "/sim/input", o, (size_t) F.outs ) );
        fr &rd( *reader );
        raft::map m;
        for( int i = 0; i < F.outs; i++ ) {
            raft::kernel *from = &rd;
            const char *fp = pn[ i ];
            if( c[ "hand" ] & ( 1 << i ) ) {
                auto *k = new Hand< C >();
                own.push_back( k );
                m.link( from, fp, k, "0", cap_of( c, 4 + i ) );
                from = k; fp = "0";
            }
            if( F.search ) {
                auto *s = new raft::search< C, raft::stdlib >( term );
                auto *t = new Hits( i );
                own.push_back( s ); own.push_back( t );
                m.link( from, fp, s, "0", cap_of( c, i ) );
                m.link( s, "0", t, "0", cap_of( c, 8 + i ) );
            }
            else {
                auto *k = new Take< C >( i, (long)( scramble( (uint64_t) c[ "styles" ] + (uint64_t) i ) % 3 ) );
                own.push_back( k );
                m.link( from, fp, k, "0", cap_of( c, i ) );
            }
        }
        go( m, c[ "mode" ] );
        sim::faults_enable( false );
    }
    for( auto *k : own ) delete k;
    if( sim::open_files() ) VIOLATES( "P15 P08", "file-left-open", "the file is still open after its reader is gone" );
    F.search ? matches_true( term ) : chunks_cover( o );
}
SIM_HOST std::string setup( const sim::Cfg &c, long size, long &o )
{
    sim::HostScope h;
    F.pace = c[ "pace" ]; F.outs = c[ "outs" ]; F.search = c[ "search" ]; F.io = c[ "io" ];
    F.data = size - 1; F.over = 0;
    std::string term;
    const long tl = 1 + c[ "over" ] % ( F.data < 12 ? F.data - 1 : 12 );
    o = F.search ? tl - 1 : c[ "over" ] % F.data;
    const long stride = F.data - o;
    long n = c[ "bytes" ];
    if( c[ "edge" ] ) n = F.data + ( c[ "bytes" ] % 9 - 1 ) * stride + ( c[ "edge" ] - 2 );
    if( n < 0 ) n = 0;
    if( n > 24 * stride ) n = n % ( 24 * stride );
    for( int i = 0; i < 4; i++ ) { F.chunk[ i ].clear(); F.match[ i ].clear(); }
    F.file.clear();
    const uint64_t seed = (uint64_t) c[ "text" ];
    const long alpha = 1 + c[ "alpha" ];
    for( long i = 0; i < n; i++ ) {
        const uint64_t x = scramble( seed * 1000003 + (uint64_t) i );
        F.file.push_back( alpha > 3 ? (char) x : (char)( 'a' + x % (uint64_t) alpha ) );
    }
    /* plant the term, also across chunk edges */
    for( long i = 0; i < tl; i++ ) term.push_back( alpha > 3 ? (char)( 200 + i ) : (char)( 'a' + scramble( seed + 5 + (uint64_t) i ) % (uint64_t) alpha ) );
    if( F.search )
        for( long k = 0; k < 6; k++ ) {
            const long at = (long)( scramble( seed * 31 + (uint64_t) k ) % 4 ? k * stride + F.data - (long)( scramble( seed + (uint64_t) k ) % (uint64_t)( tl + 1 ) ) : (long)( scramble( seed + 77 + (uint64_t) k ) % (uint64_t)( n + 1 ) ) );
            if( at >= 0 && at + tl <= n ) F.file.replace( (size_t) at, (size_t) tl, term );
        }
    sim::file_put( "/sim/input", F.file.data(), F.file.size() );
    return term;
}
void run( const sim::Cfg &c )
{
    long o = 0;
    const uint64_t mark = sim::heap_mark();
    static const long sizes[] = { 16, 32, 64, 200 };
    const std::string term = setup( c, sizes[ c[ "size" ] ], o );
    if( F.io ) sim::tolerate_abort_after( FBIT( sim::F_IOOPEN ) );
    switch( c[ "size" ] ) {
    case 0: read_it< 16 >( c, o, term ); break;
    case 1: read_it< 32 >( c, o, term ); break;
    case 2: read_it< 64 >( c, o, term ); break;
    default: read_it< 200 >( c, o, term ); break;
    }
    app_over( mark );
}
void gen( sim::Rng &r, sim::Cfg &c )
{
    c.def( "size", (long) r.below( 4 ), 0 );
    c.def( "search", (long) r.below( 2 ), 0 );
    c.def( "over", r.below( 8 ) == 0 ? 0 : r.below( 3 ) ? (long) r.below( 30 ) : (long) r.below( 1000 ), 0 );
    c.def( "outs", r.below( 2 ) ? 1 : 1 + (long) r.below( 3 ), 1 );
    c.def( "bytes", r.below( 6 ) ? (long) r.below( 800 ) : (long) r.below( 40 ), 0 );
    c.def( "edge", (long) r.below( 4 ), 0 );
    c.def( "text", (long) r.below( 1000000 ), 0 );
    c.def( "alpha", (long) r.below( 4 ), 0 );
    c.def( "hand", r.below( 3 ) ? 0 : (long) r.below( 8 ), 0 );
    c.def( "styles", (long) r.below( 1000 ), 0 );
    c.def( "caps", r.below( 4 ) ? 1 + (long) r.below( 10000 ) : 0, 0 );
    static const long modes[] = { 0, 0, 1, 2, 2 };
    c.def( "mode", r.pick( modes ), 0 );
    c.def( "pace", r.below( 2 ) ? 0 : 1 + (long) r.below( 8 ), 0 );
    c.def( "io", r.below( 4 ) == 0, 0 );
}
void gen_sound( sim::Rng &r, sim::Cfg &c ) { gen( r, c ); c.def( "io", 0, 0 ); }
sim::Register r06( { "P06", "fileread.ends", gen_sound, run, sim::SCHED_FAULTS, 1 } );
sim::Register r08( { "P08", "fileread.life", gen_sound, run, sim::SCHED_FAULTS, 1 } );
sim::Register r15( { "P15", "fileread", gen, run,
    sim::SCHED_FAULTS | FBIT( sim::F_IOOPEN ) | FBIT( sim::F_IOERR ) | FBIT( sim::F_IOSHORT ) | FBIT( sim::F_IOSEEK ), 10 } );
}
