/* malformed.cpp - P21: a graph with one defect is rejected with the documented
 * exception, none of its kernels ever runs, and whatever else the process
 * executes at that moment is not disturbed. */
#include "graph.hpp"
#include <raftio>
#include <foreach.tcc>
#include <algorithm>
#include <cxxabi.h>
#include <memory>

namespace
{
constexpr int MAXK = 8, MAXL = 12, NTYPE = 5;
enum Defect { D_NONE, D_TYPE, D_SRCNAME, D_DSTNAME, D_OPEN_IN, D_OPEN_OUT, D_TWICE_SRC, D_TWICE_DST,
              D_MANY_OUT, D_MANY_IN, D_NO_OUT, D_NO_IN, D_DECLARED_IN, D_DECLARED_OUT, NDEFECT };
const char *const defect_name[] = { "none", "types differ", "no such output", "no such input", "input left open", "output left open",
    "output connected twice", "input connected twice", "output not named among several", "input not named among several",
    "no output to connect", "no input to connect", "input declared twice", "output declared twice" };

struct Link { int from, to, type; std::string fname, tname; };
struct Graph
{
    int nk, nl;
    Link link[ MAXL ];
    std::vector< std::pair< std::string, int > > in[ MAXK ], out[ MAXK ];
    long ran[ MAXK ], got, items;
    std::map< std::string, long > cap[ MAXK ];
    bool may_run, fixed;
} G;
struct { long n, got, bad; } H;

std::string a_name( uint64_t h, int k )
{
    static const char *const stem[] = { "0", "in", "out", "a", "port", "x" };
    return std::string( stem[ h % 6 ] ) + std::string( 1, (char)( 'a' + k ) );
}
template < class F > void with_type( int t, F f )
{
    switch( t ) {
    case 0: f( (uint64_t *) nullptr ); break;
    case 1: f( (Pod *) nullptr ); break;
    case 2: f( (Obj *) nullptr ); break;
    case 3: f( (std::string *) nullptr ); break;
    default: f( (Big *) nullptr ); break;
    }
}
void declare( Port &p, const std::string &name, int t )
{
    with_type( t, [&]( auto *x ) { using T = std::remove_pointer_t< decltype( x ) >; p.addPort< T >( name ); } );
}
struct Part : public raft::kernel
{
    const int id; bool begun = false;
    /* twice: 1, 2 an input, 3, 4 an output is declared once more, with its own or another type */
    Part( int i, int twice = 0 ) : raft::kernel(), id( i )
    {
        for( auto &p : G.in[ i ] ) declare( input, p.first, p.second );
        for( auto &p : G.out[ i ] ) declare( output, p.first, p.second );
        if( twice == 1 || twice == 2 ) declare( input, G.in[ i ][ 0 ].first, ( G.in[ i ][ 0 ].second + ( twice == 2 ) ) % NTYPE );
        if( twice == 3 || twice == 4 ) declare( output, G.out[ i ][ 0 ].first, ( G.out[ i ][ 0 ].second + ( twice == 4 ) ) % NTYPE );
    }
    virtual ~Part() = default;
    SIM_HOST void note()
    {
        if( G.ran[ id ]++ == 0 ) sim::hist( (uint64_t) id );
        if( ! G.may_run ) VIOLATES( "P21", "ran", "kernel %d of a malformed graph was run", id );
    }
    SIM_HOST void took() { G.got++; sim::hist( (uint64_t) id + 100 ); sim::progress(); }
    SIM_HOST void has_capacity( const std::string &n, long is )
    {
        const auto w = G.cap[ id ].find( n );
        if( w != G.cap[ id ].end() && w->second && is != w->second )
            VIOLATES( "P21 P03", "capacity", "a link of capacity %ld has capacity %ld after an attempt to link its port again was rejected", w->second, is );
    }
    SIM_HOST void refused( bool r, const char *what ) { if( ! r ) VIOLATES( "P21", "not-rejected", "kernel %d was not told that it has no such port when it asked for %s of one", id, what ); }
    SIM_HOST void typed( bool right, const char *side ) { if( ! right ) VIOLATES( "P21", "port-type", "kernel %d is told another type for a port of its %s", id, side ); }
    /** what is said of the ports there are, and of those there are not **/
    void asks( Port &side, const std::vector< std::pair< std::string, int > > &has, const char *name )
    {
        for( auto &p : has ) with_type( p.second, [&]( auto *x ) {
            using T = std::remove_pointer_t< decltype( x ) >;
            typed( side.getPortType( std::string( p.first ) ) == std::type_index( typeid( T ) ), name );
        } );
        const std::string none( has.empty() ? "0" : has[ 0 ].first + "+" );
        bool told = false;
        try { (void) side[ none ].size(); } catch( PortNotFoundException & ) { told = true; }
        refused( told, "the link" );
        told = false;
        try { (void) side.getPortType( std::string( none ) ); } catch( PortNotFoundException & ) { told = true; }
        refused( told, "the type" );
    }
    virtual raft::kstatus run()
    {
        note();
        if( ! begun ) {
            asks( input, G.in[ id ], "inputs" );
            asks( output, G.out[ id ], "outputs" );
        }
        for( auto &p : G.in[ id ] ) {
            FIFO &f( input[ p.first ] );
            while( f.size() ) {
                with_type( p.second, [&]( auto *x ) {
                    using T = std::remove_pointer_t< decltype( x ) >;
                    T t( GV< T >::make( 1 ) );
                    f.pop< T >( t );
                    if( GV< T >::get( t ) != 7000 ) VIOLATES( "P21 P23", "item", "another item arrived" );
                } );
                took();
            }
        }
        if( ! begun ) {
            begun = true;
            if( G.fixed ) for( auto &p : G.out[ id ] ) has_capacity( p.first, (long) output[ p.first ].capacity() );
            for( long n = 0; n < G.items; n++ ) for( auto &p : G.out[ id ] )
                with_type( p.second, [&]( auto *x ) { using T = std::remove_pointer_t< decltype( x ) >; output[ p.first ].push< T >( GV< T >::make( 7000 ) ); } );
        }
        return G.in[ id ].empty() ? raft::stop : raft::proceed;
    }
};
struct Feed : public raft::kernel
{
    long k = 0;
    Feed() : raft::kernel() { output.addPort< uint64_t >( "0" ); }
    virtual raft::kstatus run() { output[ "0" ].push< uint64_t >( (uint64_t) k ); return ++k < H.n ? raft::proceed : raft::stop; }
};
struct Take : public raft::kernel
{
    Take() : raft::kernel() { input.addPort< uint64_t >( "0" ); }
    SIM_HOST void took( uint64_t v ) { if( (long) v != H.got ) H.bad++; H.got++; sim::progress(); }
    virtual raft::kstatus run() { uint64_t v; input[ "0" ].pop< uint64_t >( v ); took( v ); return raft::proceed; }
};
void execute( raft::map &m, long mode )
{
    switch( mode ) {
    case 0: m.exe< partition_dummy, simple_schedule, stdalloc, no_parallel >(); break;
    case 1: m.exe(); break;
    case 2: m.exe< partition_dummy, simple_schedule, hostile_alloc, no_parallel >(); break;
    default: m.exe< partition_basic, simple_schedule, dynalloc, no_parallel >(); break;
    }
}
void healthy( void *v )
{
    Feed f;
    Take t;
    raft::map m;
    m.link( &f, "0", &t, "0", 3 );
    execute( m, (long)(intptr_t) v );
}
/** the ways to write one link **/
void connect( raft::map &m, raft::kernel *a, const std::string &fn, raft::kernel *b, const std::string &tn, bool named_a, bool named_b, int how )
{
    if( how == 0 ) { m.link( a, named_a ? fn : raft::null_port_value, b, named_b ? tn : raft::null_port_value, 4 ); return; }
    if( named_a && named_b ) m += (*a)[ fn ] >> (*b)[ tn ];
    else if( named_a )       m += (*a)[ fn ] >> *b;
    else if( named_b )       m += *a >> (*b)[ tn ];
    else                     m += *a >> *b;
}
struct Outcome { const char *what; std::string text; };
template < class F > Outcome outcome( F f )
{
    try { f(); }
    catch( PortNotFoundException &e ) { return { "PortNotFoundException", e.what() }; }
    catch( PortDoubleInitializeException &e ) { return { "PortDoubleInitializeException", e.what() }; }
    catch( PortTypeMismatchException &e ) { return { "PortTypeMismatchException", e.what() }; }
    catch( AmbiguousPortAssignmentException &e ) { return { "AmbiguousPortAssignmentException", e.what() }; }
    catch( PortAlreadyExists &e ) { return { "PortAlreadyExists", e.what() }; }
    catch( PortUnconnectedException &e ) { return { "PortUnconnectedException", e.what() }; }
    catch( std::exception &e ) { return { "another exception", e.what() }; }
    return { "nothing", "" };
}
const char *documented( int d )
{
    switch( d ) {
    case D_TYPE: return "PortTypeMismatchException";
    case D_SRCNAME: case D_DSTNAME: case D_NO_OUT: case D_NO_IN: return "PortNotFoundException";
    case D_OPEN_IN: case D_OPEN_OUT: return "PortUnconnectedException";
    case D_TWICE_SRC: case D_TWICE_DST: return "PortDoubleInitializeException";
    case D_MANY_OUT: case D_MANY_IN: return "AmbiguousPortAssignmentException";
    case D_DECLARED_IN: case D_DECLARED_OUT: return "PortAlreadyExists";
    default: return "nothing";
    }
}
/** what an attempt ended with, into the history **/
SIM_HOST void note( const Outcome &o )
{
    uint64_t h = 1469598103934665603ull;
    for( const char *s = o.what; *s; s++ ) h = ( h ^ (unsigned char) *s ) * 1099511628211ull;
    for( const char s : o.text ) h = ( h ^ (unsigned char) s ) * 1099511628211ull;
    sim::hist( h );
}
SIM_HOST void expect( const Outcome &o, int d, const char *at )
{
    note( o );
    if( strcmp( o.what, documented( d ) ) != 0 )
        VIOLATES( "P21", "not-rejected", "%s (%s): expected %s, got %s %s", defect_name[ d ], at, documented( d ), o.what, o.text.c_str() );
}
SIM_HOST void well_formed( const Outcome &o, const char *at )
{
    note( o );
    if( strcmp( o.what, "nothing" ) != 0 ) VIOLATES( "P21", "rejected", "well-formed, but %s raised %s %s", at, o.what, o.text.c_str() );
}
/** kernels and links of the graph without its defect **/
SIM_HOST void plan( const sim::Cfg &c )
{
    G = Graph();
    G.items = 1;
    uint64_t h = scramble( (uint64_t) c[ "shape" ] );
    auto draw = [&]( uint64_t n ) { h = scramble( h + 0x9E3779B97F4A7C15ull ); return h % n; };
    G.nk = (int) c[ "kernels" ];
    auto add = [&]( int a, int b ) {
        if( G.nl == MAXL ) return;
        Link &L = G.link[ G.nl++ ];
        L.from = a; L.to = b;
        L.type = (int) draw( NTYPE );
        L.fname = a_name( draw( 6 ), (int) G.out[ a ].size() );
        L.tname = a_name( draw( 6 ), (int) G.in[ b ].size() );
        G.out[ a ].push_back( { L.fname, L.type } );
        G.in[ b ].push_back( { L.tname, L.type } );
    };
    for( int b = 1; b < G.nk; b++ ) add( (int) draw( (uint64_t) b ), b );
    for( long x = c[ "extra" ]; x > 0; x-- ) { const int b = 1 + (int) draw( (uint64_t) G.nk - 1 ); add( (int) draw( (uint64_t) b ), b ); }
    for( int i = G.nl - 1; i > 0; i-- ) std::swap( G.link[ i ], G.link[ draw( (uint64_t) i + 1 ) ] );
}
void build_and_run( const sim::Cfg &c, int d )
{
    plan( c );
    G.may_run = d == D_NONE;
    uint64_t h = scramble( (uint64_t) c[ "where" ] + 77 );
    auto draw = [&]( uint64_t n ) { h = scramble( h + 0x9E3779B97F4A7C15ull ); return h % n; };
    const int at = (int) draw( (uint64_t) G.nl );
    Link &L = G.link[ at ];
    int twice_at = -1, twice = 0;
    /* the defect */
    auto retype = [&]( std::vector< std::pair< std::string, int > > &v, const std::string &n ) {
        const int by = 1 + (int) draw( NTYPE - 1 );
        for( auto &p : v ) if( p.first == n ) p.second = ( p.second + by ) % NTYPE;
    };
    std::string fn = L.fname, tn = L.tname;
    bool nofn = false, notn = false;
    const bool completable = d == D_SRCNAME || d == D_DSTNAME || d == D_NO_OUT || d == D_NO_IN || d == D_TWICE_SRC || d == D_TWICE_DST
        || ( d == D_MANY_OUT && G.out[ L.from ].size() > 1 ) || ( d == D_MANY_IN && G.in[ L.to ].size() > 1 );
    switch( d ) {
    case D_TYPE: if( draw( 2 ) ) retype( G.in[ L.to ], L.tname ); else retype( G.out[ L.from ], L.fname ); break;
    case D_SRCNAME: fn = draw( 2 ) && ! std::count_if( G.out[ L.from ].begin(), G.out[ L.from ].end(), [&]( auto &p ) { return p.first == L.tname; } ) ? L.tname : "none"; break;
    case D_DSTNAME: tn = draw( 2 ) && ! std::count_if( G.in[ L.to ].begin(), G.in[ L.to ].end(), [&]( auto &p ) { return p.first == L.fname; } ) ? L.fname : "none"; break;
    case D_OPEN_IN: G.in[ draw( (uint64_t) G.nk ) ].push_back( { draw( 2 ) ? "A" : "z", (int) draw( NTYPE ) } ); break;
    case D_OPEN_OUT: G.out[ draw( (uint64_t) G.nk ) ].push_back( { draw( 2 ) ? "A" : "z", (int) draw( NTYPE ) } ); break;
    case D_MANY_OUT: if( G.out[ L.from ].size() < 2 ) G.out[ L.from ].push_back( { "z", L.type } ); nofn = true; break;
    case D_MANY_IN: if( G.in[ L.to ].size() < 2 ) G.in[ L.to ].push_back( { "z", L.type } ); notn = true; break;
    case D_NO_OUT: case D_NO_IN: break;
    case D_DECLARED_IN: twice_at = L.to; twice = 1 + (int) draw( 2 ); break;
    case D_DECLARED_OUT: twice_at = L.from; twice = 3 + (int) draw( 2 ); break;
    default: break;
    }
    raft::kernel *k[ MAXK ] = {}, *more = nullptr, *more2 = nullptr;
    /* the attempt is made, rejected and the graph completed as it should have been */
    const bool again = c[ "resume" ] && completable;
    G.fixed = c[ "mode" ] != 2;
    if( again ) G.may_run = true;
    if( twice ) {
        expect( outcome( [&] { delete new Part( twice_at, twice ); } ), d, "declaring" );
        return;
    }
    for( int i = 0; i < G.nk; i++ ) k[ i ] = new Part( i );
    /* one more kernel for the defects that need one: it has one port */
    auto extra = [&]( bool in ) {
        G.in[ MAXK - 1 ].clear(); G.out[ MAXK - 1 ].clear();
        ( in ? G.in : G.out )[ MAXK - 1 ].push_back( { "z", L.type } );
        return more = new Part( MAXK - 1 );
    };
    bool rejected = false;
    {
        raft::map m;
        for( int l = 0; l < G.nl && ! rejected; l++ ) {
            const Link &X = G.link[ l ];
            bool na = G.out[ X.from ].size() > 1 || draw( 2 ), nb = G.in[ X.to ].size() > 1 || draw( 2 );
            const int how = (int) draw( 2 );
            auto proper = [&] {
                well_formed( outcome( [&] { connect( m, k[ X.from ], X.fname, k[ X.to ], X.tname, na, nb, how ); } ), "a link" );
                G.cap[ X.from ][ X.fname ] = how == 0 ? 4 : 0;
            };
            if( l != at || d == D_NONE || d == D_OPEN_IN || d == D_OPEN_OUT ) {
                proper();
                continue;
            }
            const int how2 = (int) draw( 2 );
            switch( d ) {
            case D_TWICE_SRC: case D_TWICE_DST:
                proper();
                if( d == D_TWICE_SRC ) {
                    /* at a kernel of its own or at an input of the graph */
                    int to = -1;
                    if( draw( 2 ) ) for( int j = 0; j < G.nl && to < 0; j++ ) if( G.link[ j ].type == X.type && draw( 2 ) ) to = j;
                    if( to >= 0 ) expect( outcome( [&] { connect( m, k[ X.from ], X.fname, k[ G.link[ to ].to ], G.link[ to ].tname, true, true, how2 ); } ), d, "link" );
                    else { extra( true ); expect( outcome( [&] { connect( m, k[ X.from ], X.fname, more, "z", na, draw( 2 ), how2 ); } ), d, "link" ); }
                }
                else {
                    int from = -1;
                    if( draw( 2 ) ) for( int j = 0; j < G.nl && from < 0; j++ ) if( G.link[ j ].type == X.type && G.link[ j ].to != X.to && ( j > l ) ) from = j;
                    /* another output of the same kernel */
                    if( draw( 2 ) ) for( int j = 0; j < G.nl; j++ ) if( G.link[ j ].type == X.type && G.link[ j ].from == X.from && j > l ) from = j;
                    if( from >= 0 ) expect( outcome( [&] { connect( m, k[ G.link[ from ].from ], G.link[ from ].fname, k[ X.to ], X.tname, true, true, how2 ); } ), d, "link" );
                    else { extra( false ); expect( outcome( [&] { connect( m, more, "z", k[ X.to ], X.tname, draw( 2 ), nb, how2 ); } ), d, "link" ); }
                }
                break;
            case D_NO_OUT: extra( true ); expect( outcome( [&] { connect( m, more, "z", k[ X.to ], X.tname, draw( 2 ), nb, how2 ); } ), d, "link" ); break;
            case D_NO_IN: extra( false ); expect( outcome( [&] { connect( m, k[ X.from ], X.fname, more, "z", na, draw( 2 ), how2 ); } ), d, "link" ); break;
            default:
                {
                    const bool fa = na || d == D_SRCNAME, fb = nb || d == D_DSTNAME;
                    expect( outcome( [&] { connect( m, k[ X.from ], fn, k[ X.to ], tn, fa && ! nofn, fb && ! notn, how2 ); } ), d, "link" );
                }
            }
            if( ! again ) { rejected = true; continue; }
            /* as if nothing had been attempted: what is missing is linked properly */
            if( d != D_TWICE_SRC && d != D_TWICE_DST ) proper();
            if( more ) {
                const bool out = ! more->input.hasPorts();
                G.in[ MAXK - 2 ].clear(); G.out[ MAXK - 2 ].clear();
                ( out ? G.in : G.out )[ MAXK - 2 ].push_back( { "y", L.type } );
                more2 = new Part( MAXK - 2 );
                well_formed( outcome( [&] { out ? connect( m, more, "z", more2, "y", draw( 2 ), draw( 2 ), how ) : connect( m, more2, "y", more, "z", draw( 2 ), draw( 2 ), how ); } ), "a link" );
            }
            sim::probe( "completed properly after an attempt that was rejected" );
        }
        if( ! rejected ) {
            const Outcome o = outcome( [&] { execute( m, c[ "mode" ] ); } );
            if( d == D_NONE || again ) well_formed( o, "executing" );
            else expect( o, d, "executing" );
        }
    }
    sim::sleep_ns( 20000000 );           /* nothing may still be running on them */
    for( int i = 0; i < G.nk; i++ ) delete k[ i ];
    delete more;
    delete more2;
    if( d == D_NONE || again ) {
        for( int i = 0; i < G.nk; i++ ) if( ! G.ran[ i ] ) VIOLATES( "P21", "not-run", "kernel %d of a well-formed graph was not run", i );
        if( G.got != G.nl + ( more2 != nullptr ) ) VIOLATES( "P21", "lost", "%ld items arrived of %d", G.got, G.nl );
    }
}
/* ------------------------------------------- defects inside of one operator statement */
enum XDefect { X_NONE, X_TYPE, X_SRCNAME, X_DSTNAME, X_MANY, X_NO_OUT, X_NO_IN, X_MORE, X_FEWER, X_THREE, X_LOOKUP, NX };
const char *const x_name[] = { "statement without a defect", "types differ in a statement", "no such output in a statement", "no such input in a statement",
    "not named among several in a statement", "no output to connect in a statement", "no input to connect in a statement",
    "fewer streams than inputs to join", "more streams than inputs to join", "three ports of one kernel named", "look-up of a port that does not exist" };
struct Spec { long ins, outs; int it, ot; };
struct
{
    Spec s[ 8 ];
    int n;
    long items, ran, made, sent[ 8 ], got;
    bool may_run;
} X;
/** kernel i of the statement or a copy of it **/
struct Stage : public raft::kernel
{
    const int i; bool begun = false; long no;
    explicit Stage( int k ) : raft::kernel(), i( k ) { ports(); }
    Stage( const Stage &o ) : raft::kernel(), i( o.i ) { ports(); }
    virtual ~Stage() = default;
    void ports()
    {
        const Spec &s = X.s[ i ];
        for( long p = 0; p < s.ins; p++ ) declare( input, "i" + std::to_string( p ), s.it );
        for( long p = 0; p < s.outs; p++ ) declare( output, "o" + std::to_string( p ), s.ot );
        X.made++;
    }
    SIM_HOST void note()
    {
        if( ! X.may_run ) VIOLATES( "P21", "ran", "kernel %d of a malformed statement was run", i );
        if( ! begun ) { X.ran++; sim::hist( (uint64_t) i ); }
        begun = true;
    }
    SIM_HOST void took( long v ) { X.got++; sim::hist( (uint64_t) i + 100 ); if( v != 7000 ) VIOLATES( "P21", "item", "another item arrived" ); sim::progress(); }
    void send( long p ) { with_type( X.s[ i ].ot, [&]( auto *x ) { using T = std::remove_pointer_t< decltype( x ) >; output[ "o" + std::to_string( p ) ].push< T >( GV< T >::make( 7000 ) ); } ); }
    virtual raft::kstatus run()
    {
        const Spec &s = X.s[ i ];
        const bool first = ! begun;
        note();
        if( s.ins == 0 ) {
            if( first ) for( long k = 0; k < X.items; k++ ) for( long p = 0; p < s.outs; p++ ) send( p );
            return raft::stop;
        }
        for( long p = 0; p < s.ins; p++ ) {
            FIFO &f( input[ "i" + std::to_string( p ) ] );
            while( f.size() ) {
                with_type( s.it, [&]( auto *x ) {
                    using T = std::remove_pointer_t< decltype( x ) >;
                    T t( GV< T >::make( 1 ) );
                    f.pop< T >( t );
                    const long v = (long) GV< T >::get( t );
                    if( s.outs == 0 ) took( v );
                    else if( v != 7000 ) took( v );
                } );
                if( s.outs ) send( 0 );
            }
        }
        return raft::proceed;
    }
    CLONE();
};
void statement( const sim::Cfg &c, int d )
{
    X = {};
    X.may_run = d == X_NONE || d == X_LOOKUP;
    X.items = 1 + c[ "where" ] % 4;
    uint64_t h = scramble( (uint64_t) c[ "where" ] + 1234 );
    auto draw = [&]( uint64_t n ) { h = scramble( h + 0x9E3779B97F4A7C15ull ); return (long)( h % n ); };
    const long form = c[ "form" ] - 1, w = 2 + c[ "extra" ] % 3, mid = form == 0 ? draw( 4 ) : form == 1 || ( form == 3 && d == X_SRCNAME ) ? 1 + draw( 2 ) : draw( 3 );
    const bool splits = form == 1 || form == 3, joins = form == 1 || form == 2;
    auto add = [&]( long ins, long outs ) { X.s[ X.n++ ] = Spec{ ins, outs, 0, 0 }; };
    add( 0, splits ? w : 1 );
    for( long i = 0; i < mid; i++ ) add( 1, 1 );
    const int jn = joins ? X.n : -1;
    if( joins ) add( w, 1 );
    add( 1, 0 );
    const int links = X.n - 1;
    for( int l = 0; l < links; l++ ) X.s[ l ].ot = X.s[ l + 1 ].it = (int) draw( NTYPE );
    /* the defect, at link at */
    int at = (int) draw( (uint64_t) links ), src_name = -1, dst_name = -1, three = -1;
    const char *want = "nothing", *or_else = "nothing";
    auto free_side = [&]( bool in ) { return in ? at + 1 == jn : splits && at == 0; };       /* any number of ports is fine there */
    switch( d ) {
    case X_TYPE: {
        const int by = 1 + (int) draw( NTYPE - 1 );
        int &t = draw( 2 ) ? X.s[ at ].ot : X.s[ at + 1 ].it;
        t = ( t + by ) % NTYPE;
        want = "PortTypeMismatchException";
        break;
    }
    case X_SRCNAME: at = splits ? links - 1 : form == 2 ? (int) draw( 2 ) * ( links - 1 ) : at; src_name = at; want = "PortNotFoundException"; break;
    case X_DSTNAME: at = links - 1; dst_name = at + 1; want = "PortNotFoundException"; break;
    case X_MANY: {
        const bool in = free_side( false ) || ( ! free_side( true ) && draw( 2 ) );
        if( in ) X.s[ at + 1 ].ins = 2; else X.s[ at ].outs = 2;
        want = "AmbiguousPortAssignmentException";
        break;
    }
    case X_NO_OUT: X.s[ at ].outs = 0; want = "PortNotFoundException"; break;
    case X_NO_IN: X.s[ at + 1 ].ins = 0; want = "PortNotFoundException"; if( at + 1 == jn ) or_else = "PortUnconnectedException"; break;
    case X_MORE: X.s[ jn ].ins = w + 1 + draw( 2 ); want = "PortUnconnectedException"; break;
    case X_FEWER: X.s[ jn ].ins = w - 1; want = "PortUnconnectedException"; break;
    case X_THREE: three = (int) draw( (uint64_t) X.n ); want = "AmbiguousPortAssignmentException"; break;
    default: break;
    }
    std::vector< Stage * > k;
    for( int i = 0; i < X.n; i++ ) k.push_back( new Stage( i ) );
    auto K = [&]( int i ) -> raft::kernel & {
        raft::kernel &r( *k[ (size_t) i ] );
        if( i == three ) return r[ std::string( "i0" ) ][ std::string( "o0" ) ][ std::string( "o0" ) ];
        if( i == src_name ) { if( X.s[ i ].ins ) r[ std::string( "i0" ) ]; return r[ std::string( "nope" ) ]; }
        if( i == dst_name ) return r[ std::string( "nope" ) ];
        return r;
    };
    {
        raft::map m;
        auto chain = [&]( kpair *p, int from, int to ) {
            for( int i = from; i <= to; i++ ) p = draw( 4 ) ? &( *p >> K( i ) ) : &( *p >> raft::order::out >> K( i ) );
            return p;
        };
        const Outcome o = outcome( [&] {
            if( d == X_LOOKUP ) {
                const Outcome q = outcome( [&] { if( draw( 2 ) ) k[ 0 ]->input[ "nope" ]; else k[ 0 ]->output[ "nope" ]; } );
                if( strcmp( q.what, "PortNotFoundException" ) != 0 ) VIOLATES( "P21", "not-rejected", "%s: %s %s", x_name[ d ], q.what, q.text.c_str() );
            }
            kpair *p;
            if( form == 0 ) p = chain( &( K( 0 ) >> K( 1 ) ), 2, X.n - 1 );
            else if( form == 3 ) p = X.n == 2 ? &( K( 0 ) <= K( 1 ) ) : &( K( 0 ) <= *chain( &( K( 1 ) >> K( 2 ) ), 3, X.n - 1 ) );
            else if( form == 1 ) {
                if( mid == 1 ) p = &( K( 0 ) <= K( 1 ) );
                else p = &( K( 0 ) <= *chain( &( K( 1 ) >> K( 2 ) ), 3, (int) mid ) );
                p = draw( 2 ) ? &( *p >= ( K( jn ) >> K( jn + 1 ) ) ) : &( ( *p >= K( jn ) ) >> K( jn + 1 ) );
            }
            else {
                if( mid == 0 ) p = draw( 2 ) ? &( ( K( 0 ) >= K( jn ) ) >> K( jn + 1 ) ) : &( K( 0 ) >= ( K( jn ) >> K( jn + 1 ) ) );
                else {
                    p = chain( &( K( 0 ) >> K( 1 ) ), 2, (int) mid );
                    p = draw( 2 ) ? &( *p >= ( K( jn ) >> K( jn + 1 ) ) ) : &( ( *p >= K( jn ) ) >> K( jn + 1 ) );
                }
            }
            m += *p;
            execute( m, c[ "mode" ] );
        } );
        note( o );
        if( strcmp( o.what, want ) != 0 && strcmp( o.what, or_else ) != 0 )
            VIOLATES( "P21", X.may_run ? "rejected" : "not-rejected", "%s, link %d of %d, form %ld: expected %s, got %s %s", x_name[ d ], at, links, form, want, o.what, o.text.c_str() );
        sim::sleep_ns( 20000000 );
    }
    for( auto *q : k ) delete q;
    if( X.may_run ) {
        if( X.ran != X.made ) VIOLATES( "P21", "not-run", "%ld of %ld kernels of a well-formed statement were run", X.ran, X.made );
        const long streams = form == 0 ? 1 : w;   /* ends of a split are copied */
        if( X.got != streams * X.items ) VIOLATES( "P21", "lost", "%ld items arrived of %ld", X.got, streams * X.items );
    }
    sim::probe( x_name[ d ] );
}
void run_malformed( const sim::Cfg &c )
{
    lives_reset();
    const bool beside = c[ "beside" ];
    H = { 4 + c[ "beside" ] * 4, 0, 0 };
    int t = -1;
    if( beside ) t = sim::spawn( healthy, (void *)(intptr_t)( c[ "beside" ] % 4 ) );
    if( c[ "form" ] ) {
        int x = 1 + (int)( c[ "defect" ] % ( NX - 1 ) );
        if( c[ "form" ] != 2 && ( x == X_MORE || x == X_FEWER ) ) x = X_TYPE;
        statement( c, x );
        if( c[ "again" ] ) statement( c, X_NONE );
    }
    else {
        const int d = (int) c[ "defect" ];
        build_and_run( c, d );
        sim::probe( defect_name[ d ] );
        if( d != D_NONE && c[ "again" ] ) build_and_run( c, D_NONE );      /* written correctly, it is accepted */
    }
    if( beside ) {
        sim::join( t );
        if( H.got != H.n || H.bad ) VIOLATES( "P21 P17", "disturbed", "an application executed meanwhile got %ld of %ld items, %ld out of order", H.got, H.n, H.bad );
    }
    if( lives.live ) VIOLATES( "P21 P08", "objects-left", "%ld objects are left of %ld", lives.live, lives.made );
}
void gen_malformed( sim::Rng &r, sim::Cfg &c )
{
    c.def( "defect", 1 + (long) r.below( NDEFECT - 1 ), 0 );
    c.def( "form", r.below( 2 ) ? 0 : 1 + (long) r.below( 4 ), 0 );
    c.def( "kernels", 2 + (long) r.below( 5 ), 2 );
    c.def( "extra", (long) r.below( 5 ), 0 );
    c.def( "shape", 1 + (long) r.below( 100000 ), 0 );
    c.def( "where", (long) r.below( 1000 ), 0 );
    c.def( "again", (long) r.below( 2 ), 0 );
    c.def( "resume", (long) r.below( 2 ), 0 );
    c.def( "beside", r.below( 2 ) ? 1 + (long) r.below( 7 ) : 0, 0 );
    c.def( "mode", (long) r.below( 4 ), 0 );
}
/* ---------------------------------------------------- P23: the graph description */
constexpr int MAXD = 64, MAXE = 96;
enum Moment { M_BEFORE, M_FILE, M_FAULTY, M_EXIT, M_DURING, M_AFTER, NMOMENT };
const char *const moment_name[] = { "described before the execution", "described in a file", "description failed to be written",
    "described instead of executed", "described during the execution", "described after the execution" };
struct Edge { raft::kernel *from, *to; std::string fname, tname, type; bool any, ooo, used; };
struct
{
    raft::kernel *k[ MAXD ];
    size_t id[ MAXD ];
    std::string name[ MAXD ];
    long width, height;
    Edge e[ MAXE ];
    int nk, ne;
    long copies, described, ran, sent, got, bad;
    bool over, breaks;
    char text[ 1 << 16 ];
} D;
SIM_HOST void d_reset()
{
    sim::HostScope h;
    D.nk = D.ne = 0;
    D.copies = D.described = D.ran = D.sent = D.got = D.bad = 0;
    D.over = false;
    D.width = D.height = 0;
}
/** a type's name without namespaces and parameters **/
SIM_HOST std::string plain_name( const char *mangled )
{
    int ok = 0;
    char *const d = abi::__cxa_demangle( mangled, nullptr, nullptr, &ok );
    std::string n( ok == 0 ? d : mangled );
    free( d );
    n = n.substr( 0, n.find( '<' ) );
    const size_t c = n.find_last_of( ": )" );
    return c == std::string::npos ? n : n.substr( c + 1 );
}
void d_kernel( raft::kernel *k )
{
    const size_t id = k->get_id();
    const char *const mangled = typeid( *k ).name();
    sim::HostScope h;
    for( int i = 0; i < D.nk; i++ )
        if( D.id[ i ] == id ) VIOLATES( "P23", "id", "kernels %d and %d have one id", i, D.nk );
    D.k[ D.nk ] = k;
    D.name[ D.nk ] = plain_name( mangled );
    D.id[ D.nk++ ] = id;
}
SIM_HOST void d_edge( raft::kernel *a, const std::string &fn, raft::kernel *b, const std::string &tn, bool ooo, bool any = false, const std::type_info &type = typeid( uint64_t ) )
{
    sim::HostScope h;
    Edge &e = D.e[ D.ne++ ];
    e.from = a; e.to = b; e.fname = fn; e.tname = tn; e.ooo = ooo; e.any = any; e.used = false; e.type = plain_name( type.name() );
}
/** position after the word w in s from p on, npos: it is not there **/
SIM_HOST size_t word( const std::string &s, const std::string &w, size_t p )
{
    auto in_word = []( char c ) { return isalnum( (unsigned char) c ) || c == '_'; };
    for( ; ( p = s.find( w, p ) ) != std::string::npos; p++ )
        if( ( p == 0 || ! in_word( s[ p - 1 ] ) ) && ( p + w.size() == s.size() || ! in_word( s[ p + w.size() ] ) ) ) return p + w.size();
    return p;
}
SIM_HOST int d_vertex( const std::string &s )
{
    char *end = nullptr;
    const size_t id = strtoul( s.c_str(), &end, 10 );
    if( end == s.c_str() ) VIOLATES( "P23", "description", "%.40s is not the id of a kernel", s.c_str() );
    for( int i = 0; i < D.nk; i++ ) if( D.id[ i ] == id ) return i;
    VIOLATES( "P23", "description", "a kernel with id %zu is described, there is none", id );
    return -1;
}
/** the description as a whole: every kernel and every link once **/
SIM_HOST void d_read( const std::string &t )
{
    bool seen[ MAXD ] = {}, sized = false;
    for( int i = 0; i < D.ne; i++ ) D.e[ i ].used = false;
    const size_t a = t.find( '{' ), z = t.rfind( '}' );
    if( t.compare( 0, 7, "digraph" ) != 0 || a == std::string::npos || z == std::string::npos || z < a )
        VIOLATES( "P23", "description", "not a directed graph: %.60s", t.c_str() );
    std::string st;
    bool quoted = false;
    for( size_t p = a + 1; p <= z; p++ ) {
        const char c = t[ p ];
        if( c == '"' ) quoted = ! quoted;
        if( quoted || ( c != ';' && p < z ) ) { if( ! st.empty() || ! isspace( (unsigned char) c ) ) st += c; continue; }
        if( st.empty() ) continue;
        const size_t attr = st.find( '[' );
        const std::string head = st.substr( 0, attr ), rest = attr == std::string::npos ? "" : st.substr( attr );
        const size_t arrow = head.find( "->" );
        if( arrow != std::string::npos ) {
            size_t skip = arrow + 2;
            while( skip < head.size() && head[ skip ] == ' ' ) skip++;
            const int f = d_vertex( head ), to = d_vertex( head.substr( skip ) );
            const size_t ol = rest.find( "OoO" );
            const bool ooo = ol != std::string::npos && word( rest, "true", ol ) <= rest.find( '\n', ol );
            int hit = -1;
            for( int i = 0; i < D.ne && hit < 0; i++ ) {
                Edge &e = D.e[ i ];
                if( e.used || e.from != D.k[ f ] || e.to != D.k[ to ] || e.ooo != ooo || word( rest, e.type, 0 ) == std::string::npos ) continue;
                if( e.any ) hit = i;
                else {
                    const size_t w = word( rest, e.fname, 0 );
                    if( w != std::string::npos && word( rest, e.tname, w ) != std::string::npos ) hit = i;
                }
            }
            if( hit < 0 ) VIOLATES( "P23", "description", "a link from kernel %d to kernel %d is described that does not exist or was described already: %.100s", f, to, rest.c_str() );
            D.e[ hit ].used = true;
            sim::hist( (uint64_t) f * MAXD + (uint64_t) to );
        }
        else if( head.find( '=' ) == std::string::npos ) {
            const int v = d_vertex( head );
            if( seen[ v ] ) VIOLATES( "P23", "description", "kernel %d is described twice", v );
            seen[ v ] = true;
            if( word( rest, D.name[ v ], 0 ) == std::string::npos )
                VIOLATES( "P23", "description", "kernel %d is a %s, described by %.100s", v, D.name[ v ].c_str(), rest.c_str() );
            sim::hist( (uint64_t) v );
        }
        else if( D.width && word( head, "size", 0 ) == 4 ) {
            long w = 0, h = 0;
            const size_t q = head.find( '"' );
            if( q == std::string::npos || sscanf( head.c_str() + q + 1, "%ld , %ld", &w, &h ) != 2 || w != D.width || h != D.height )
                VIOLATES( "P23", "size", "a drawing of width %ld and height %ld was asked for, the description says %.40s", D.width, D.height, head.c_str() );
            sized = true;
        }
        st.clear();
    }
    if( D.width && ! sized ) VIOLATES( "P23", "size", "the size asked for is not in the description" );
    for( int i = 0; i < D.nk; i++ ) if( ! seen[ i ] ) VIOLATES( "P23", "description", "kernel %d of %d is not described", i, D.nk );
    for( int i = 0; i < D.ne; i++ ) if( ! D.e[ i ].used ) VIOLATES( "P23", "description", "link %d of %d is not described", i, D.ne );
    D.described++;
    sim::progress();
}
SIM_HOST void d_read_stream( const std::string &s ) { sim::HostScope h; const std::string copy( s.data(), s.size() ); d_read( copy ); }
/** room for some bytes, then writing fails **/
struct Scarce : public std::streambuf
{
    long room;
    explicit Scarce( long n ) : room( n ) {}
    virtual int overflow( int ch ) { return room-- > 0 ? (unsigned char) ch : EOF; }
    virtual std::streamsize xsputn( const char *, std::streamsize n )
    {
        if( n <= room ) { room -= (long) n; return n; }
        n = room;
        room = 0;
        return n;
    }
};
void describe( raft::map &m )
{
    if( D.breaks && sim::wbelow( 2 ) ) {     /* a stream that raises an exception when it cannot be written to */
        Scarce s( (long) sim::wbelow( 1ull << ( 3 + sim::wbelow( 9 ) ) ) );
        std::ostream o( &s );
        o.exceptions( std::ios::badbit | std::ios::failbit );
        try { raft::make_dot::run( o, m ); }
        catch( std::ios_base::failure & ) { sim::probe( "descriptions broken off by an exception" ); }
    }
    std::stringstream ss;
    raft::make_dot::run( ss, m );
    const std::string s( ss.str() );
    d_read_stream( s );
}
/** what is in the file; it may be incomplete only if an I/O fault struck **/
SIM_HOST void d_file()
{
    sim::HostScope h;
    const long n = sim::file_got( D.text, sizeof D.text );
    if( sim::fired( sim::F_IOOPEN ) || sim::fired( sim::F_IOERR ) ) return;
    if( n <= 0 ) VIOLATES( "P23", "no-file", "nothing was written to the file" );
    d_read( std::string( D.text, (size_t) n ) );
}
SIM_HOST void d_exit( const char *cls, const char *what )
{
    if( strcmp( cls, "exit" ) != 0 || strcmp( what, "exit(0) called" ) != 0 ) sim::fail( cls, "%s", what );
    if( D.ran ) sim::fail( "ran", "kernels ran although only the description was asked for" );
    d_file();
    sim::probe( "processes ended after the description" );
}
/** a kernel that copies of can be made; ins and outs ports **/
struct Rep : public raft::kernel
{
    const long ins, outs, items; long k = 0;
    Rep( long i, long o, long n ) : raft::kernel(), ins( i ), outs( o ), items( n ) { ports(); }
    Rep( const Rep &r ) : raft::kernel(), ins( r.ins ), outs( r.outs ), items( r.items ) { ports(); }
    virtual ~Rep() = default;
    void ports()
    {
        for( long i = 0; i < ins; i++ ) input.addPort< uint64_t >( "i" + std::to_string( i ) );
        for( long i = 0; i < outs; i++ ) output.addPort< uint64_t >( "o" + std::to_string( i ) );
        d_kernel( this );
    }
    SIM_HOST void ran() { D.ran++; sim::progress(); }
    SIM_HOST void took( uint64_t v ) { D.got++; if( v != 7000 ) D.bad++; }
    virtual raft::kstatus run()
    {
        ran();
        if( ins == 0 ) {
            for( long i = 0; i < outs; i++ ) output[ "o" + std::to_string( i ) ].push< uint64_t >( 7000 );
            return ++k < items ? raft::proceed : raft::stop;
        }
        for( long i = 0; i < ins; i++ ) {
            auto &f( input[ "i" + std::to_string( i ) ] );
            while( f.size() ) {
                uint64_t v;
                f.pop< uint64_t >( v );
                if( outs ) output[ "o0" ].push< uint64_t >( v );
                else took( v );
            }
        }
        return raft::proceed;
    }
    CLONE();
};
struct Teller { raft::map *m; long times; };
void tell( void *v )
{
    Teller &t = *static_cast< Teller * >( v );
    for( long i = 0; i < t.times && ! D.over; i++ ) {
        sim::sleep_ns( 1000ull << sim::wbelow( 15 ) );
        describe( *t.m );
    }
}
void told_and_executed( raft::map &m, const sim::Cfg &c )
{
    const int moment = (int) c[ "moment" ];
    const bool file = moment == M_FILE || moment == M_FAULTY || moment == M_EXIT;
    if( file ) {
        {
            sim::HostScope h;
            /* at fixed addresses: the library reads these strings */
            static char dot[] = "GEN_DOT=/sim/graph.dot", yes[] = "GEN_DOT_EXIT=1", no[] = "GEN_DOT_EXIT=0";
            putenv( dot );
            if( moment == M_EXIT ) putenv( yes );
            else if( c[ "no_exit" ] ) putenv( no );
        }
        if( moment == M_EXIT ) { sim::on_tolerated( d_exit ); sim::tolerate_now( "the description is all that was asked for" ); }
        sim::faults_enable( true );
    }
    if( c[ "width" ] ) {
        sim::HostScope h;
        static char width[ 40 ], height[ 40 ];
        snprintf( width, sizeof width, "GEN_DOT_WIDTH=%ld", c[ "width" ] );
        snprintf( height, sizeof height, "GEN_DOT_HEIGHT=%ld", c[ "height" ] );
        putenv( width );
        putenv( height );
        D.width = c[ "width" ];
        D.height = c[ "height" ];
    }
    if( moment == M_BEFORE ) describe( m );
    Teller t{ &m, 1 + c[ "often" ] };
    int th = -1;
    if( moment == M_DURING ) th = sim::spawn( tell, &t );
    execute( m, c[ "mode" ] );
    sim::faults_enable( false );
    if( moment == M_EXIT ) sim::fail( "no-exit", "the application was executed although only the description was asked for" );
    if( moment == M_DURING ) { D.over = true; sim::join( th ); }
    if( file ) { d_file(); sim::HostScope h; unsetenv( "GEN_DOT" ); unsetenv( "GEN_DOT_EXIT" ); }
    if( moment == M_AFTER || ( moment == M_FILE && c[ "often" ] ) ) describe( m );
    if( c[ "width" ] ) { sim::HostScope h; unsetenv( "GEN_DOT_WIDTH" ); unsetenv( "GEN_DOT_HEIGHT" ); }
}
struct Beside { Feed *f; Take *t; long mode; };
void beside_it( void *v )
{
    Beside &b = *static_cast< Beside * >( v );
    raft::map m;
    m.link( b.f, "0", b.t, "0", 3 );
    execute( m, b.mode );
}
void run_described( const sim::Cfg &c )
{
    lives_reset();
    d_reset();
    D.breaks = c[ "breaks" ];
    const uint64_t mark = sim::heap_mark();
    const long moment = c[ "moment" ];
    H = { 4 + c[ "beside" ] * 4, 0, 0 };
    int t = -1;
    const bool beside = c[ "beside" ] && ( moment == M_BEFORE || moment == M_DURING || moment == M_AFTER );
    /* kernels get their ids from one thread: those of the other application are made here, too */
    Beside other{ nullptr, nullptr, c[ "beside" ] % 4 };
    if( beside ) { other.f = new Feed; other.t = new Take; t = sim::spawn( beside_it, &other ); }
    std::vector< raft::kernel * > own;
    if( c[ "rep" ] ) {                       /* copies made by the operators */
        const long w = c[ "rep" ] + 1, items = c[ "items" ];
        {
            raft::map m;
            auto *src = new Rep( 0, w, items ), *work = new Rep( 1, 1, 0 ), *join = new Rep( w, 1, 0 ), *sink = new Rep( 1, 0, 0 );
            own.assign( { src, work, join, sink } );
            const bool ooo = c[ "shape" ] % 2;
            if( ooo ) m += ( ( *src <= *work ) >= *join ) >> raft::order::out >> *sink;
            else m += ( ( *src <= *work ) >= *join ) >> *sink;
            if( D.nk != w + 3 ) VIOLATES( "P23", "copies", "%d kernels instead of %ld", D.nk, w + 3 );
            for( int i = 0; i < D.nk; i++ ) if( D.k[ i ] != src && D.k[ i ] != join && D.k[ i ] != sink ) {
                d_edge( src, "", D.k[ i ], "", false, true );
                d_edge( D.k[ i ], "", join, "", false, true );
            }
            d_edge( join, "o0", sink, "i0", ooo );
            told_and_executed( m, c );
        }
        if( D.got != w * items || D.bad ) VIOLATES( "P23", "result", "%ld of %ld items arrived", D.got, w * items );
    }
    else {
        plan( c );
        G.may_run = moment != M_EXIT;
        G.items = c[ "items" ];
        uint64_t h = scramble( (uint64_t) c[ "where" ] + 99 );
        auto draw = [&]( uint64_t n ) { h = scramble( h + 0x9E3779B97F4A7C15ull ); return h % n; };
        const long fp = c[ "array" ];
        int at[ 8 ] = {};
        for( long i = 0; i < fp; i++ ) { at[ i ] = (int) draw( (uint64_t) G.nk ); G.in[ at[ i ] ].push_back( { "q" + std::to_string( i ), 0 } ); }
        raft::kernel *k[ MAXK ] = {};
        uint64_t arr[ 32 ];
        for( auto &x : arr ) x = 7000;
        {
            std::unique_ptr< raft::for_each< uint64_t > > fe;
            raft::map m;
            const bool first = draw( 2 );
            auto array = [&] { if( fp ) { fe.reset( new raft::for_each< uint64_t >( arr, (size_t) fp * 3, (size_t) fp ) ); d_kernel( fe.get() ); } };
            if( first ) array();
            for( int i = 0; i < G.nk; i++ ) { own.push_back( k[ i ] = new Part( i ) ); d_kernel( k[ i ] ); }
            if( ! first ) array();
            for( long i = 0; i < fp; i++ ) {
                m.link( fe.get(), std::to_string( i ), k[ at[ i ] ], "q" + std::to_string( i ) );
                d_edge( fe.get(), std::to_string( i ), k[ at[ i ] ], "q" + std::to_string( i ), false );
            }
            for( int l = 0; l < G.nl; l++ ) {
                const Link &X = G.link[ l ];
                const bool na = G.out[ X.from ].size() > 1 || draw( 2 ), nb = G.in[ X.to ].size() > 1 || draw( 2 ), ooo = draw( 3 ) == 0;
                raft::kernel *a = k[ X.from ], *b = k[ X.to ];
                if( ! ooo ) connect( m, a, X.fname, b, X.tname, na, nb, (int) draw( 2 ) );
                else if( draw( 2 ) ) m.link< raft::order::out >( a, na ? X.fname : raft::null_port_value, b, nb ? X.tname : raft::null_port_value );
                else m += (*a)[ X.fname ] >> raft::order::out >> (*b)[ X.tname ];
                with_type( X.type, [&]( auto *x ) {
                    d_edge( a, X.fname, b, X.tname, ooo, false, typeid( std::remove_pointer_t< decltype( x ) > ) );
                } );
            }
            told_and_executed( m, c );
        }
        if( G.got != G.nl * G.items + fp * 3 ) VIOLATES( "P23", "result", "%ld of %ld items arrived", G.got, G.nl * G.items + fp * 3 );
    }
    if( beside ) {
        sim::join( t );
        delete other.f;
        delete other.t;
        if( H.got != H.n || H.bad ) VIOLATES( "P23 P17", "disturbed", "an application executed meanwhile got %ld of %ld items, %ld out of order", H.got, H.n, H.bad );
    }
    for( auto *k : own ) delete k;
    if( sim::open_files() ) VIOLATES( "P23", "file-open", "the file is still open" );
    if( lives.live ) VIOLATES( "P23 P08", "objects-left", "%ld objects are left of %ld", lives.live, lives.made );
    app_over( mark );
    sim::probe( moment_name[ moment ] );
    sim::probe( "descriptions read", (uint64_t) D.described );
}
void gen_described( sim::Rng &r, sim::Cfg &c )
{
    c.def( "moment", (long) r.below( NMOMENT ), 0 );
    c.def( "rep", r.below( 4 ) ? 0 : 1 + (long) r.below( 4 ), 0 );
    c.def( "array", r.below( 3 ) ? 0 : 1 + (long) r.below( 4 ), 0 );
    c.def( "kernels", 2 + (long) r.below( 5 ), 2 );
    c.def( "extra", (long) r.below( 6 ), 0 );
    c.def( "shape", 1 + (long) r.below( 100000 ), 0 );
    c.def( "where", (long) r.below( 1000 ), 0 );
    c.def( "items", 1 + (long) r.below( 8 ), 1 );
    c.def( "often", (long) r.below( 5 ), 0 );
    c.def( "no_exit", (long) r.below( 2 ), 0 );
    c.def( "breaks", r.below( 4 ) == 0, 0 );
    c.def( "width", r.below( 4 ) ? 0 : 1 + (long) r.below( 99 ), 0 );
    c.def( "height", 1 + (long) r.below( 99 ), 1 );
    c.def( "beside", r.below( 3 ) ? 0 : 1 + (long) r.below( 7 ), 0 );
    c.def( "mode", (long) r.below( 4 ), 0 );
}
sim::Register r23( { "P23", "graph.described", gen_described, run_described, sim::SCHED_FAULTS | sim::FBIT( sim::F_IOOPEN ) | sim::FBIT( sim::F_IOERR ) | sim::FBIT( sim::F_IOSHORT ), 10 } );
sim::Register r21( { "P21", "graph.malformed", gen_malformed, run_malformed, sim::SCHED_FAULTS, 10 } );
}
