/* simrt.h - interface of the deterministic simulator to the scenarios.
 *
 * Everything declared here is implemented in uninstrumented code: calling it
 * from a simulated thread is neither a preemption point nor a memory access
 * the simulator sees.
 */
#ifndef SIMRT_H
#define SIMRT_H 1
#include <cstdint>
#include <cstddef>
#include <cstdio>

#define SIM_HOST __attribute__((no_sanitize("thread"), noinline))

namespace sim
{
/** ---- workload configuration: named integers, shrinkable ---- **/
constexpr int MAXCFG = 64;
struct Cfg
{
    int         n = 0;
    char        name[ MAXCFG ][ 16 ];
    long        val[ MAXCFG ];
    long        lo[ MAXCFG ];      /** smallest value the shrinker may try **/
    /** define a value (an override from a replay file or the shrinker wins) **/
    long def( const char *nm, long v, long lowest );
    long operator[]( const char *nm ) const;
};

struct Rng
{
    uint64_t s[ 2 ];
    void seed( uint64_t x );
    uint64_t next();
    uint64_t below( uint64_t n ) { return n ? next() % n : 0; }
    long range( long a, long b ) { return a + (long) below( (uint64_t)( b - a + 1 ) ); }
    bool chance( unsigned num, unsigned den ) { return below( den ) < num; }
    template < class T, std::size_t N > T pick( const T (&a)[ N ] ) { return a[ below( N ) ]; }
};

/** fault kinds, used as permission bits in Scenario::faults **/
enum Fault : unsigned
{
    F_STALL = 0,    /** a thread is not scheduled for a while            **/
    F_START,        /** a new thread's first step is delayed             **/
    F_OVERSLEEP,    /** a sleep lasts (much) longer than asked           **/
    F_EINTR,        /** a sleep is interrupted (EINTR with remainder)    **/
    F_TRYLOCK,      /** try_lock fails although the mutex is free        **/
    F_CLOCK,        /** the wall clock jumps                             **/
    F_STORE,        /** stores become visible to others late (x86 store buffer) **/
    F_ALLOC,        /** an allocation fails                              **/
    F_THREAD,       /** thread creation fails (EAGAIN)                   **/
    F_IOSHORT,      /** a read returns fewer bytes than asked            **/
    F_IOERR,        /** a read fails                                     **/
    F_IOSEEK,       /** a seek fails                                     **/
    F_IOOPEN,       /** open / stat fails                                **/
    F_NKINDS
};
extern const char *fault_name[ F_NKINDS ];
constexpr unsigned FBIT( Fault f ) { return 1u << f; }
constexpr unsigned SCHED_FAULTS = FBIT( F_STALL ) | FBIT( F_START ) | FBIT( F_OVERSLEEP ) |
                                  FBIT( F_EINTR ) | FBIT( F_TRYLOCK ) | FBIT( F_CLOCK ) | FBIT( F_STORE );

struct Scenario
{
    const char *prop;                 /** property id **/
    const char *name;
    void (*gen)( Rng &, Cfg & );      /** draws the workload **/
    void (*run)( const Cfg & );       /** executed as simulated thread 0 **/
    unsigned    faults;               /** permitted fault kinds **/
    int         weight;               /** relative share of the runs **/
};
/** Oracle code: while one of these lives the simulator neither counts accesses
 *  nor preempts, and allocations come from the host, not the simulated heap. **/
struct HostScope { HostScope(); ~HostScope(); HostScope( const HostScope & ) = delete; };
void add_scenario( const Scenario &s );
struct Register { Register( const Scenario &s ) { add_scenario( s ); } };

/** property of the scenario being run **/
const char *prop();
/** ---- called while a run proceeds ---- **/
/** report a violation and end the run; never returns **/
[[noreturn]] void fail( const char *cls, const char *fmt, ... ) __attribute__((format( printf, 2, 3 )));
/** the run ended in an outcome that is legal under the injected fault **/
[[noreturn]] void ok_end( const char *why );
/** text added to the report of a hang or deadlock **/
void explain_with( void (*f)( char *, size_t ) );
/** process exit / uncaught error / abort are legal once one of these fired **/
void tolerate_abort_after( unsigned faultmask );
/** the same outcomes are legal from now on for another stated reason **/
void tolerate_now( const char *why );
/** called when the run is about to end that way; it may still fail() **/
void on_tolerated( void (*f)( const char *cls, const char *what ) );
/** ALLOC / THREAD / IO faults are injected only while enabled **/
void faults_enable( bool on );
uint64_t now_ns();
int      self();
/** from here on no stalls, and fair random scheduling (end of disturbances) **/
void calm();
/** the application got on: the bound on a hang counts from here (unused: from the start) **/
void progress();
void alive();            /* the same without making the thread's stores visible */
uint64_t wrnd();                      /** workload randomness, per simulated thread **/
uint64_t wbelow( uint64_t n );
void     hist( uint64_t v );          /** add to the history hash **/
void     probe( const char *name, uint64_t n = 1 );
uint64_t fired( Fault f );            /** how often the fault fired in this run **/
void     yield();
void     sleep_ns( uint64_t ns );
/** start a simulated thread running f(arg); join it **/
int      spawn( void (*f)( void * ), void *arg );
void     join( int id );
/** while frozen a thread takes no step (it is not blocked, only not scheduled) **/
void     freeze( int id, bool on );
bool     heap_live( const void *p );  /** p lies inside a live block of the simulated heap **/
bool     in_heap( const void *p );
uint64_t heap_mark();
/** live blocks allocated since the mark that nothing refers to any more **/
size_t   heap_leaks( uint64_t mark, char *what, size_t n );
int      live_threads();              /** simulated threads not yet finished, without the main one **/
int      threads_created();
struct Pin { int thread; long core; uint64_t seq; };
int      pins( Pin *out, int max );
long     pin_of( int thread );        /** last core, -1: never pinned **/
int      pin_count( int thread );
void fence();                         /** for oracles: what this thread stored is visible now **/
uint64_t seq();                       /** global event sequence number **/
void     file_put( const char *path, const char *data, size_t n );
/** what the application wrote to its /sim/ file; -1: it opened none **/
long     file_got( char *to, size_t max );
int      open_files();
/** bytes written by the program to stdout / stderr in this run **/
uint64_t diag_bytes();
}
#endif
