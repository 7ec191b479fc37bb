/* common.hpp - what the scenarios share: item types whose content is a
 * function of their number, checks tagged with the properties they decide,
 * object life-cycle accounting. */
#ifndef SCEN_COMMON_HPP
#define SCEN_COMMON_HPP 1
#include "../rt/simrt.h"
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <list>
#include <raft>

namespace sim { const char *prop(); }

/** a check decides the named properties; under another property's run its
 *  failure ends the run without a verdict **/
#define VIOLATES( tags, cls, ... ) \
    do { if( scen_owns( tags ) ) sim::fail( cls, __VA_ARGS__ ); else sim::ok_end( cls ); } while( 0 )
#define CHECK( cond, tags, cls, ... ) do { if( ! ( cond ) ) VIOLATES( tags, cls, __VA_ARGS__ ); } while( 0 )

SIM_HOST static inline bool scen_owns( const char *tags ) { return strstr( tags, sim::prop() ) != nullptr; }

static inline uint64_t scramble( uint64_t x )
{
    x ^= x >> 33; x *= 0xff51afd7ed558ccdull;
    x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ull;
    return x ^ ( x >> 33 );
}

/** what holds whenever an execution has returned and its application is gone;
 *  mark: sim::heap_mark() from before the application was built **/
SIM_HOST void app_over( uint64_t mark );

/** memory and threads may run out while applications are executed; what ends
 *  an execution early then has to be seen by somebody **/
struct Exhausted {};
extern bool EXHAUST;
template < class F > void may_run_out( F exe )
{
    if( ! EXHAUST ) { exe(); return; }
    bool reached = false;
    sim::faults_enable( true );
    try { exe(); }
    catch( ... ) { reached = true; }
    sim::faults_enable( false );
    if( reached ) throw Exhausted();
}
/** P18: run with memory and threads that may run out, from the start (early)
 *  or from the moment of the execution **/
void run_out( void (*run)( const sim::Cfg & ), const sim::Cfg &c );
SIM_HOST void ended_by_fault( const char *cls, const char *what );

/** declares ports one by one or several with one call **/
template < class T > void declare_ports( Port &p, const std::string *nm, long n, unsigned how )
{
    while( n > 0 ) {
        long g = how ? 1 + (long)( how % 4 ) : 1;
        if( g > n ) g = n;
        switch( g ) {
        case 1: p.addPort< T >( nm[ 0 ] ); break;
        case 2: p.addPort< T >( nm[ 0 ], nm[ 1 ] ); break;
        case 3: p.addPort< T >( nm[ 0 ], nm[ 1 ], nm[ 2 ] ); break;
        default: p.addPort< T >( nm[ 0 ], nm[ 1 ], nm[ 2 ], nm[ 3 ] ); break;
        }
        nm += g;
        n -= g;
    }
}

/* ---------------------------------------------------- objects with a life */
/** counts of live objects, kept by the simulator side **/
struct Lives
{
    long made, dead, live, maxlive;
    long copies[ 256 ];        /* by thread */
};
extern Lives lives;
void lives_reset();

constexpr uint64_t OBJ_ALIVE = 0xA11FE0B1EC7ull, OBJ_DEAD = 0xDEADDEADDEADull;

/** fits in place; knows its own address, so a bitwise move is seen **/
struct Obj
{
    uint64_t id;
    uint64_t sum;
    const Obj *me;
    uint64_t state;
    SIM_HOST void born();
    SIM_HOST void check( const char *what ) const;
    SIM_HOST void died();
    explicit Obj( uint64_t i ) : id( i ), sum( scramble( i ) ) { born(); }
    Obj() : id( ~0ull ), sum( scramble( ~0ull ) ) { born(); }
    Obj( const Obj &o ) : id( o.id ), sum( o.sum ) { o.check( "copied" ); born(); }
    Obj &operator=( const Obj &o ) { o.check( "assigned from" ); check( "assigned to" ); id = o.id; sum = o.sum; return *this; }
    ~Obj() { died(); }
};
static_assert( sizeof( Obj ) <= 64, "" );

/** too large for a cache line: kept out of place **/
struct Big
{
    uint64_t id;
    uint64_t sum;
    const Big *me;
    uint64_t state;
    uint64_t pay[ 12 ];
    SIM_HOST void born();
    SIM_HOST void check( const char *what ) const;
    SIM_HOST void died();
    void fill() { for( int i = 0; i < 12; i++ ) pay[ i ] = id * 31 + (uint64_t) i; }
    explicit Big( uint64_t i ) : id( i ), sum( scramble( i ) ) { fill(); born(); }
    Big() : id( ~0ull ), sum( scramble( ~0ull ) ) { fill(); born(); }
    Big( const Big &o ) : id( o.id ), sum( o.sum ) { o.check( "copied" ); memcpy( pay, o.pay, sizeof pay ); born(); copied(); }
    SIM_HOST void copied() { lives.copies[ sim::self() & 255 ]++; }
    Big &operator=( const Big &o ) { o.check( "assigned from" ); check( "assigned to" ); id = o.id; sum = o.sum; memcpy( pay, o.pay, sizeof pay ); return *this; }
    ~Big() { died(); }
    bool intact() const { for( int i = 0; i < 12; i++ ) if( pay[ i ] != id * 31 + (uint64_t) i ) return false; return sum == scramble( id ); }
};
static_assert( sizeof( Big ) > 64, "" );

/** plain aggregate **/
struct Pod { uint64_t id; uint32_t a, b; uint16_t c; char t[ 22 ]; };

/* -------------------------------------------------- items made from numbers */
template < class T > struct Item;
template <> struct Item< uint64_t >
{
    static uint64_t make( uint64_t i ) { return i * 0x9E3779B97F4A7C15ull + 0x1234567; }
    static bool is( const uint64_t &v, uint64_t i ) { return v == make( i ); }
    static const char *name() { return "u64"; }
};
template <> struct Item< uint32_t >
{
    static uint32_t make( uint64_t i ) { return (uint32_t) i * 2654435761u + 77; }
    static bool is( const uint32_t &v, uint64_t i ) { return v == make( i ); }
    static const char *name() { return "u32"; }
};
template <> struct Item< uint8_t >
{
    static uint8_t make( uint64_t i ) { return (uint8_t)( i * 37 + 11 ); }
    static bool is( const uint8_t &v, uint64_t i ) { return v == make( i ); }
    static const char *name() { return "u8"; }
};
template <> struct Item< double >
{
    static double make( uint64_t i ) { return (double) i * 1.5 - 3.25; }
    static bool is( const double &v, uint64_t i ) { return v == make( i ); }
    static const char *name() { return "double"; }
};
template <> struct Item< Pod >
{
    static Pod make( uint64_t i )
    {
        Pod p;
        memset( (void *) &p, 0, sizeof p );
        p.id = i; p.a = (uint32_t) scramble( i ); p.b = ~p.a; p.c = (uint16_t) i;
        for( int k = 0; k < 22; k++ ) p.t[ k ] = (char)( i + k );
        return p;
    }
    static bool is( const Pod &v, uint64_t i )
    {
        if( v.id != i || v.a != (uint32_t) scramble( i ) || v.b != ~v.a || v.c != (uint16_t) i ) return false;
        for( int k = 0; k < 22; k++ ) if( v.t[ k ] != (char)( i + k ) ) return false;
        return true;
    }
    static const char *name() { return "pod"; }
};
template <> struct Item< Obj >
{
    static Obj make( uint64_t i ) { return Obj( i ); }
    static bool is( const Obj &v, uint64_t i ) { v.check( "received" ); return v.id == i && v.sum == scramble( i ); }
    static const char *name() { return "obj"; }
};
template <> struct Item< Big >
{
    static Big make( uint64_t i ) { return Big( i ); }
    static bool is( const Big &v, uint64_t i ) { v.check( "received" ); return v.id == i && v.intact(); }
    static const char *name() { return "big"; }
};
template <> struct Item< std::string >
{
    static std::string make( uint64_t i )
    {
        char b[ 96 ];
        int n = snprintf( b, sizeof b, "item-%lu", (unsigned long) i );
        const int len = (int)( scramble( i ) % 48 );
        while( n < len ) { b[ n ] = (char)( 'a' + ( i + (uint64_t) n ) % 26 ); n++; }
        return std::string( b, (size_t) n );
    }
    SIM_HOST static bool is( const std::string &v, uint64_t i )
    {
        sim::HostScope h;
        return v == make( i );
    }
    static const char *name() { return "string"; }
};
template <> struct Item< std::vector< uint32_t > >
{
    static std::vector< uint32_t > make( uint64_t i ) { return std::vector< uint32_t >( (size_t)( scramble( i ) % 7 ), (uint32_t) i * 77u + 5u ); }
    SIM_HOST static bool is( const std::vector< uint32_t > &v, uint64_t i )
    {
        sim::HostScope h;
        return v == make( i );
    }
    static const char *name() { return "vector"; }
};
template <> struct Item< bool >
{
    static bool make( uint64_t i ) { return scramble( i ) & 1; }
    static bool is( const bool &v, uint64_t i ) { unsigned char c; memcpy( &c, &v, 1 ); return c == ( make( i ) ? 1 : 0 ); }
    static const char *name() { return "bool"; }
};
/** as much as is kept in place: a whole cache line **/
struct Line { uint64_t w[ 8 ]; };
template <> struct Item< Line >
{
    static Line make( uint64_t i ) { Line l; for( uint64_t k = 0; k < 8; k++ ) l.w[ k ] = scramble( i * 8 + k ); return l; }
    static bool is( const Line &v, uint64_t i )
    {
        for( uint64_t k = 0; k < 8; k++ ) if( v.w[ k ] != scramble( i * 8 + k ) ) return false;
        return true;
    }
    static const char *name() { return "line"; }
};
template < class T > struct lifecycle { static constexpr bool value = false; };
template <> struct lifecycle< Obj > { static constexpr bool value = true; };
template <> struct lifecycle< Big > { static constexpr bool value = true; };

/** user signal number k (0: none) **/
static inline raft::signal usig( unsigned k )
{
    return k ? static_cast< raft::signal >( raft::MAX_SYSTEM_SIGNAL + k ) : raft::none;
}
#endif
