/* simrt.cpp - deterministic simulator for RaftLib.
 *
 * The library and the scenarios are compiled with -fsanitize=thread but linked
 * without the TSan runtime: the __tsan_* callbacks below are the simulator's
 * view of every memory access.  Simulated threads are fibers on one OS thread;
 * which one runs, when it is preempted, how time advances and which
 * environment call fails is decided here from one seed (explore) or from a
 * recorded list of decisions (replay).
 */
#include <semaphore.h>
#include <stdarg.h>
#include <linux/futex.h>
#include <sys/syscall.h>
#include <sys/stat.h>
#include "simrt.h"
#include <atomic>
#include <cerrno>
#include <csetjmp>
#include <csignal>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <cxxabi.h>
#include <dlfcn.h>
#include <elf.h>
#include <exception>
#include <fcntl.h>
#include <link.h>
#include <pthread.h>
#include <random>
#include <sched.h>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/single_threaded.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <typeinfo>
#include <unistd.h>
#include "simint.h"
#include <affinity>
#include "demangle.hpp"

extern "C" void *__libc_malloc( size_t );
extern "C" void  __libc_free( void * );
extern "C" void *__libc_calloc( size_t, size_t );
extern "C" void *__libc_realloc( void *, size_t );
extern "C" void *__libc_memalign( size_t, size_t );

namespace sim
{
const char *fault_name[ F_NKINDS ] = { "stall", "late_start", "oversleep", "eintr", "trylock",
    "clock_jump", "store_delay", "alloc_fail", "thread_fail", "io_short", "io_error", "seek_error", "open_error" };

void Rng::seed( uint64_t x )
{
    for( int i = 0; i < 2; i++ ) {
        x += 0x9E3779B97F4A7C15ull;
        uint64_t z = x;
        z = ( z ^ ( z >> 30 ) ) * 0xBF58476D1CE4E5B9ull;
        z = ( z ^ ( z >> 27 ) ) * 0x94D049BB133111EBull;
        s[ i ] = z ^ ( z >> 31 );
    }
    if( ! s[ 0 ] && ! s[ 1 ] ) s[ 0 ] = 1;
}
uint64_t Rng::next()
{
    uint64_t a = s[ 0 ];
    const uint64_t b = s[ 1 ], r = a + b;
    s[ 0 ] = b;
    a ^= a << 23;
    s[ 1 ] = a ^ b ^ ( a >> 18 ) ^ ( b >> 5 );
    return r;
}
uint64_t mix( uint64_t a, uint64_t b )
{
    Rng r;
    r.seed( a * 0x9E3779B97F4A7C15ull + b );
    r.next();
    return r.next();
}

/* ------------------------------------------------------------------ state */
constexpr int      MAXF      = 512;
constexpr size_t   STACK     = 256 << 10;
constexpr size_t   STACK0    = 1 << 20;
constexpr uintptr_t STK_BASE = 0x200000000000ull;
constexpr uintptr_t AR_BASE  = 0x300000000000ull;
constexpr size_t   AR_SIZE   = 256ull << 20;
constexpr uintptr_t SH_BASE  = 0x310000000000ull;
constexpr uintptr_t G_BASE   = 0x320000000000ull;
constexpr int      NSUB      = 4;
constexpr size_t   MAXBLK    = 1 << 19;
constexpr int      TABN      = 2048;
constexpr uint64_t CAP       = 20000;
constexpr int      TLSMAX    = 4096;

enum State : int { S_FREE, S_RUN, S_SLEEP, S_BLOCK, S_DONE };

constexpr int SBN = 8;
struct Stb { uintptr_t a; uint64_t old, nw; uint8_t n; bool skip; };
constexpr unsigned NKEY = 32;
extern "C" void key_dtors();
struct Fiber
{
    void *sp;
    int state;
    int err;
    uint64_t lev, vidx, wake, stall;
    const void *waiton;
    void *(*fn)( void * );
    void *arg, *ret;
    bool detached, joined, timed, frozen;
    uint64_t weight;
    int64_t prio;
    Rng wr;
    long core;
    int npins;
    struct { void (*f)( void * ); void *o; } dtor[ 8 ];
    int ndtor;
    void *key[ NKEY ];
    /* replay */
    size_t ppos, pend, vpos, vend;
    /* most recent stores since the last fence; held: not visible to the others */
    Stb sb[ SBN ];
    int nsb;
    bool held;
    uint64_t hold_until;
    unsigned char tls[ TLSMAX ];
};
struct Heat { uint64_t key, mask, wmask; };
struct Blk { uintptr_t a; uint32_t n; uint32_t seq; uint8_t live, mark, big; uint8_t cls; uint32_t next; };
struct VFile { char path[ 64 ]; const char *data; size_t n; };
struct VHandle { bool open; int file; size_t pos; bool eof, err; };

struct Glob
{
    Fiber f[ MAXF ];
    Heat tab[ TABN ];
    Blk blk[ MAXBLK ];
    uint32_t nblk, heapseq;
    uintptr_t subcur[ NSUB ], subend[ NSUB ];
    uint32_t freelist[ 256 ];
    uint32_t qhead, qn, q[ 128 ];
    Pin pin[ 1024 ];
    int npin;
    VFile file[ 16 ];
    int nfile;
    VHandle fh[ 64 ];
    uint32_t stackscan[ MAXBLK ];
};
static Glob *const G = (Glob *) G_BASE;

static int        active;          /* 0: hooks are off (host code) */
static bool       insim;
static int        cur;
static int        nf;
static uint64_t   lev, lim, lev0;  /* current fiber's access counter; limit; last synced */
static int64_t    cnt;
static uint64_t   total, vnow, wallskew, evseq;
static uint64_t   cost = 100;
static Mode       mode;
static Result    *R;
static const RunSpec *RS;
static Rng        srng, frng, drng;
static uint64_t   horizon, cap_total, moved_at;
static int        policy;
static uint64_t   qmean;
static uint64_t   stall_p;         /* 1/stall_p per decision, 0: never */
static int        stalls_left;
static unsigned   faults_on;       /* fault kinds allowed by the scenario and this run */
static uint64_t   frate[ F_NKINDS ];
static bool       faults_enabled;
static unsigned   tolerate_mask;
static const char *tolerate_why;
static uint64_t   opp[ F_NKINDS ];
static uint64_t   alloc_at, alloc_n;
static int        quar;
static bool       heap_tight;     /* give up delaying reuse: the heap is half full */
static unsigned char fillpat;
static int64_t    prio_low;
static size_t     tls_size;
static unsigned char *tls_base, tls_init[ TLSMAX ];
static uint64_t   thash;
static int        memfd_err = -1, memfd_out = -1;
static int        zombie = -1;
static bool       calmed;
static bool       tso;            /* store buffers are modelled in this run */
static int        nheld;          /* threads with held stores */
static uint8_t    next_hold;
static uint64_t   hold_p;
static void       commit_all();
void fence();

HostScope::HostScope() { host_enter(); }
HostScope::~HostScope() { host_leave(); }
void host_enter()
{
    /* what an oracle has been told, the thread has done */
    if( insim && active > 0 ) G->f[ cur ].nsb = 0;
    active--;
}
void host_leave() { active++; }
static inline bool on() { return insim && active > 0; }

static inline void hash1( uint64_t v )
{
    thash = ( thash ^ v ) * 0x100000001B3ull;
    thash ^= thash >> 29;
}

/* ---------------------------------------------------------------- endings */
static void finish( int status, const char *cls, const char *detail )
{
    active = -1000;
    fflush( stdout );
    R->status = status;
    snprintf( R->cls, sizeof R->cls, "%s", cls );
    snprintf( R->detail, sizeof R->detail, "%s", detail );
    total += lev - lev0;
    R->thash = thash;
    R->steps = total;
    R->vtime = vnow;
    R->threads = nf;
    for( int k = 0; k < F_NKINDS; k++ ) R->opp[ k ] = opp[ k ];
    R->done = 1;
    _exit( 0 );
}
static void (*explainer)( char *, size_t );
void explain_with( void (*f)( char *, size_t ) ) { explainer = f; }
void fail( const char *cls, const char *fmt, ... )
{
    active = -1000;
    char b[ 768 ];
    va_list ap;
    va_start( ap, fmt );
    vsnprintf( b, sizeof b, fmt, ap );
    va_end( ap );
    if( explainer && ( ! strcmp( cls, "hang" ) || ! strcmp( cls, "deadlock" ) ) ) {
        const size_t l = strlen( b );
        explainer( b + l, sizeof b - l );
    }
    for( char *p = b; *p; p++ ) if( *p == '\n' || *p == '\r' ) *p = ' ';
    finish( ST_FAIL, cls, b );
    __builtin_unreachable();
}
void ok_end( const char *why )
{
    finish( ST_OK, "ok", why );
    __builtin_unreachable();
}
static void abnormal( const char *cls, const char *what )
{
    active = -1000;
    unsigned m = 0;
    for( int k = 0; k < F_NKINDS; k++ ) if( R->fired[ k ] ) m |= 1u << k;
    if( ( tolerate_mask & m ) || tolerate_why ) {
        if( on_abnormal ) on_abnormal( cls, what );
        char b[ 256 ];
        snprintf( b, sizeof b, "%s: %s", cls, what );
        R->abnormal = 1;
        finish( ST_OK, "ok", b );
    }
    fail( cls, "%s", what );
}
void (*on_abnormal)( const char *, const char * ) = nullptr;
void on_tolerated( void (*f)( const char *, const char * ) ) { on_abnormal = f; }
void tolerate_abort_after( unsigned m ) { tolerate_mask = m; }
void tolerate_now( const char *w ) { tolerate_why = w; }
void faults_enable( bool e ) { faults_enabled = e; }

/* ------------------------------------------------------------------- time */
static void sync_time()
{
    const uint64_t d = lev - lev0;
    lev0 = lev;
    total += d;
    vnow += d * cost;
}
uint64_t now_ns() { if( insim ) sync_time(); return vnow; }
uint64_t seq() { fence(); return ++evseq; }

/* ----------------------------------------------------------------- faults */
static bool replay_fault( Fault k, uint64_t idx, uint64_t &val )
{
    for( size_t i = 0; i < RS->nfault; i++ )
        if( RS->fault[ i ].kind == (uint32_t) k && RS->fault[ i ].idx == idx ) {
            val = RS->fault[ i ].val;
            return true;
        }
    return false;
}
static void fault_note( Fault k, uint64_t idx, uint64_t val )
{
    R->fired[ k ]++;
    hash1( 0xF000 + k );
    hash1( val );
    if( RS->rec && RS->rec->nfault < MAXREC_F ) {
        FaultRec &r = RS->rec->fault[ RS->rec->nfault++ ];
        r.kind = k;
        r.idx  = idx;
        r.val  = val;
    }
}
/** an opportunity for fault k; val is drawn in [lo,hi] (log-uniform if wide) **/
static bool fault( Fault k, uint64_t lo, uint64_t hi, uint64_t &val )
{
    if( ! ( faults_on & FBIT( k ) ) ) return false;
    if( k >= F_ALLOC && ! faults_enabled ) return false;
    const uint64_t idx = opp[ k ]++;
    if( mode == M_REPLAY ) {
        if( ! replay_fault( k, idx, val ) ) return false;
        fault_note( k, idx, val );
        return true;
    }
    if( k == F_ALLOC ) {
        if( idx < alloc_at || idx >= alloc_at + alloc_n ) return false;
        val = 1;
    } else {
        if( ! frate[ k ] || frng.below( frate[ k ] ) ) return false;
        if( calmed && k < F_ALLOC ) return false;
        if( total > horizon && k < F_ALLOC ) return false;
        if( hi > lo * 64 ) {
            uint64_t r = lo ? lo : 1;
            unsigned bits = 0;
            while( ( r << bits ) < hi ) bits++;
            uint64_t v = r << frng.below( bits );
            v += frng.below( v + 1 );
            val = v > hi ? hi : v;
        } else val = lo + frng.below( hi - lo + 1 );
    }
    fault_note( k, idx, val );
    return true;
}
uint64_t fired( Fault f ) { return R->fired[ f ]; }

/* -------------------------------------------------------------- scheduler */
extern "C" void sim_switch_asm( void **save, void *to );
asm( ".text\n.globl sim_switch_asm\n.type sim_switch_asm,@function\nsim_switch_asm:\n"
     "push %rbp\npush %rbx\npush %r12\npush %r13\npush %r14\npush %r15\n"
     "mov %rsp,(%rdi)\nmov %rsi,%rsp\n"
     "pop %r15\npop %r14\npop %r13\npop %r12\npop %rbx\npop %rbp\nret\n"
     ".size sim_switch_asm,.-sim_switch_asm\n" );

static char *stack_lo( int id )
{
    return (char *) ( STK_BASE + (uintptr_t) id * ( STACK0 + 0x10000 ) + 0x10000 );
}
static void reap_zombie()
{
    if( zombie >= 0 ) {
        /* the stack of a finished thread is gone: touching it is a crash */
        mprotect( stack_lo( zombie ), zombie == 0 ? STACK0 : STACK, PROT_NONE );
        madvise( stack_lo( zombie ), zombie == 0 ? STACK0 : STACK, MADV_DONTNEED );
        zombie = -1;
    }
}
static void new_quantum( bool keep = false )
{
    /* the raw cap counts from the last event that replay sees as well */
    if( ! keep ) lim = lev + CAP;
    if( mode == M_REPLAY ) {
        cnt = INT64_MAX;
        Fiber &f = G->f[ cur ];
        while( f.ppos < f.pend && RS->dec[ f.ppos ].lev <= lev ) f.ppos++;
        if( f.ppos < f.pend && RS->dec[ f.ppos ].lev < lim ) lim = RS->dec[ f.ppos ].lev;
        return;
    }
    uint64_t m = total > horizon || calmed ? 64 : qmean;
    /* geometric-ish: uniform in 1..2m-1, sometimes far shorter or longer */
    uint64_t q = 1 + srng.below( 2 * m - 1 );
    if( srng.below( 8 ) == 0 ) q = 1 + srng.below( 4 );
    cnt = (int64_t) q * 256;
}
/* ------------------------------------------------------------ store buffers
 * x86-TSO: a thread's stores become visible to the others in order, but maybe
 * only after the loads that follow them.  At a preemption the last few stores
 * since the thread's last fence may be held back: the others see the memory
 * without them until the thread runs on (and later fences) or some switches
 * have passed.  The thread itself always sees its own stores.  Whatever makes
 * a thread give up the processor by itself (locks, yields, sleeps, thread
 * start and end) and every read-modify-write is a fence. */
static inline bool in_ar( uintptr_t a ) { return a - AR_BASE < AR_SIZE; }
static inline bool granule_ok( uintptr_t a, size_t n );
static uint64_t sb_get( const Stb &e ) { uint64_t v = 0; memcpy( &v, (void *) e.a, e.n ); return v; }
static void sb_put( const Stb &e, uint64_t v ) { memcpy( (void *) e.a, &v, e.n ); }
static inline void sb_note( const void *p, size_t n )
{
    Fiber &f = G->f[ cur ];
    if( (uintptr_t) p - (uintptr_t) tls_base < tls_size ) return;   /* nobody else sees thread-local variables */
    if( n > 8 ) { f.nsb = 0; return; }
    if( f.nsb == SBN ) { memmove( f.sb, f.sb + 1, ( SBN - 1 ) * sizeof( Stb ) ); f.nsb--; }
    Stb &e = f.sb[ f.nsb++ ];
    e.a = (uintptr_t) p;
    e.n = (uint8_t) n;
    e.old = sb_get( e );
}
/** make the stores of a thread that is not running visible **/
static void sb_commit( Fiber &f )
{
    for( int i = 0; i < f.nsb; i++ )
        if( ! f.sb[ i ].skip && ( ! in_ar( f.sb[ i ].a ) || granule_ok( f.sb[ i ].a, 1 ) ) ) sb_put( f.sb[ i ], f.sb[ i ].nw );
    f.nsb = 0;
    f.held = false;
    nheld--;
}
static void commit_all()
{
    G->f[ cur ].nsb = 0;
    for( int i = 0; nheld && i < nf; i++ ) if( G->f[ i ].held ) sb_commit( G->f[ i ] );
}
/** the running thread's stores are visible **/
void fence() { if( insim ) G->f[ cur ].nsb = 0; }
static void sb_hold( int n, int switches )
{
    Fiber &f = G->f[ cur ];
    if( n > f.nsb ) n = f.nsb;
    if( n < f.nsb ) { memmove( f.sb, f.sb + f.nsb - n, n * sizeof( Stb ) ); f.nsb = n; }
    if( ! n ) return;
    const uintptr_t slo = (uintptr_t) stack_lo( cur ), here = (uintptr_t) __builtin_frame_address( 0 ) + 512;
    for( int i = n - 1; i >= 0; i-- ) {
        Stb &e = f.sb[ i ];
        /* the stack below us is in use by the simulator, and dead otherwise */
        e.skip = e.a >= slo && e.a < here;
        if( e.skip ) continue;
        e.nw = sb_get( e );
        sb_put( e, e.old );
    }
    f.held = true;
    f.hold_until = R->switches + switches;
    nheld++;
    R->fired[ F_STORE ]++;
    hash1( 0xF300 + n );
}
static void sb_resume( Fiber &f )
{
    for( int i = 0; i < f.nsb; i++ ) {
        Stb &e = f.sb[ i ];
        if( e.skip ) continue;
        e.old = sb_get( e );
        sb_put( e, e.nw );
    }
    f.held = false;
    nheld--;
}
static void switch_to( int t, bool keep = false )
{
    if( t == cur ) { new_quantum( keep ); next_hold = 0; return; }
    Fiber &a = G->f[ cur ], &b = G->f[ t ];
    if( tso ) {
        if( nheld ) for( int i = 0; i < nf; i++ ) if( G->f[ i ].held && R->switches >= G->f[ i ].hold_until ) sb_commit( G->f[ i ] );
        sb_hold( next_hold & 15, next_hold >> 4 );
        next_hold = 0;
        if( b.held ) sb_resume( b );
    }
    a.lev = lev;
    a.err = errno;
    memcpy( a.tls, tls_base, tls_size );
    R->switches++;
    hash1( ( (uint64_t) t << 48 ) ^ ( (uint64_t) cur << 40 ) ^ lev );
    cur  = t;
    lev  = b.lev;
    lev0 = lev;
    memcpy( tls_base, b.tls, tls_size );
    errno = b.err;
    new_quantum();
    sim_switch_asm( &a.sp, b.sp );
    reap_zombie();
}
static int   cand[ MAXF ];
static int   ncand;
static void wake_sleepers()
{
    for( int i = 0; i < nf; i++ ) {
        Fiber &f = G->f[ i ];
        if( f.state == S_SLEEP && f.wake <= vnow ) f.state = S_RUN;
        else if( f.state == S_BLOCK && f.timed && f.wake <= vnow ) f.state = S_RUN;
    }
}
static void candidates()
{
    for( ;; ) {
        wake_sleepers();
        ncand = 0;
        for( int i = 0; i < nf; i++ )
            if( G->f[ i ].state == S_RUN && G->f[ i ].stall <= vnow && ! G->f[ i ].frozen ) cand[ ncand++ ] = i;
        if( ncand ) return;
        uint64_t nx = UINT64_MAX;
        for( int i = 0; i < nf; i++ ) {
            Fiber &f = G->f[ i ];
            uint64_t w;
            if( f.frozen ) continue;
            if( f.state == S_RUN ) w = f.stall;
            else if( f.state == S_SLEEP || ( f.state == S_BLOCK && f.timed ) )
                w = f.wake > f.stall ? f.wake : f.stall;
            else continue;
            if( w < nx ) nx = w;
        }
        if( nx == UINT64_MAX ) {
            char b[ 400 ];
            int n = 0;
            for( int i = 0; i < nf && n < 300; i++ )
                if( G->f[ i ].state == S_BLOCK ) n += snprintf( b + n, sizeof b - n, " T%d", i );
            fail( "deadlock", "all threads blocked:%s", b );
        }
        vnow = nx;
        if( vnow > RS->vlimit ) fail( "hang", "no progress: virtual time limit reached while threads sleep" );
        uint64_t v;
        if( fault( F_CLOCK, 1000000, 3600ull * 1000000000, v ) ) wallskew += ( v & 1 ) ? v : (uint64_t) 0 - v;
    }
}
static void record( char type, uint64_t key, int target, int stallwho, uint64_t dur )
{
    RecBuf *rb = RS->rec;
    if( ! rb ) return;
    if( rb->ndec >= MAXREC_D ) { rb->overflow = 1; return; }
    Decision &d = rb->dec[ rb->ndec++ ];
    d.fiber  = (uint16_t) cur;
    d.type   = (uint8_t) type;
    d.target = (uint16_t) target;
    d.lev    = key;
    d.stallwho = (int16_t) stallwho;
    d.dur    = dur;
    d.held   = next_hold;
}
static int rr_next()
{
    for( int i = 0; i < ncand; i++ ) if( cand[ i ] > cur ) return cand[ i ];
    return cand[ 0 ];
}
static bool is_cand( int t )
{
    for( int i = 0; i < ncand; i++ ) if( cand[ i ] == t ) return true;
    return false;
}
static int choose( char type )
{
    if( ncand == 1 ) return cand[ 0 ];
    if( total > horizon || calmed ) {
        if( type == 'V' && is_cand( cur ) ) {
            int t;
            do t = cand[ srng.below( ncand ) ]; while( t == cur );
            return t;
        }
        return cand[ srng.below( ncand ) ];
    }
    switch( policy ) {
    case 1: {
        uint64_t s = 0;
        for( int i = 0; i < ncand; i++ ) s += G->f[ cand[ i ] ].weight;
        uint64_t r = srng.below( s );
        for( int i = 0; i < ncand; i++ ) {
            const uint64_t w = G->f[ cand[ i ] ].weight;
            if( r < w ) return cand[ i ];
            r -= w;
        }
        return cand[ 0 ];
    }
    case 2: {
        if( type == 'V' || srng.below( 3 ) == 0 ) {
            G->f[ cur ].prio = --prio_low;
        }
        int b = cand[ 0 ];
        for( int i = 1; i < ncand; i++ ) if( G->f[ cand[ i ] ].prio > G->f[ b ].prio ) b = cand[ i ];
        return b;
    }
    default:
        return cand[ srng.below( ncand ) ];
    }
}
static void note_limit()
{
    if( total > moved_at + cap_total )
        fail( "hang", "no progress within %llu accesses", (unsigned long long) cap_total );
    if( total > cap_total * 12 ) { R->abnormal = 1; ok_end( "run too long, given up while it still made progress" ); }
}
static int pick_stall( uint64_t &dur )
{
    if( ! stall_p || ! stalls_left || total > horizon || calmed ) return -1;
    if( srng.below( stall_p ) ) return -1;
    stalls_left--;
    int who = cur;
    if( srng.below( 4 ) == 0 ) who = (int) srng.below( nf );
    if( G->f[ who ].state == S_DONE ) return -1;
    const uint64_t v = 1000ull << srng.below( 15 );
    dur = v + srng.below( v );
    return who;
}
static void do_stall( int who, uint64_t dur )
{
    G->f[ who ].stall = vnow + dur;
    R->fired[ F_STALL ]++;
    hash1( 0xF100 + who );
    hash1( dur );
}
/** preemption point reached its limit **/
static void __attribute__((noinline)) preempt()
{
    sync_time();
    note_limit();
    int t, sw = -1;
    uint64_t dur = 0;
    bool keep = false;
    Fiber &f0 = G->f[ cur ];
    if( mode == M_REPLAY ) {
        Fiber &f = f0;
        int want = -1;
        if( f.ppos < f.pend && RS->dec[ f.ppos ].lev == lev ) {
            const Decision &d = RS->dec[ f.ppos++ ];
            want = d.target;
            if( d.stallwho >= 0 && d.stallwho < nf ) { sw = d.stallwho; dur = d.dur; do_stall( sw, dur ); }
            next_hold = d.held;
        }
        candidates();
        t = want >= 0 && is_cand( want ) ? want : rr_next();
    } else {
        sw = pick_stall( dur );
        if( sw >= 0 ) do_stall( sw, dur );
        candidates();
        t = choose( 'P' );
        if( tso && t != cur && f0.nsb && ! calmed && srng.below( hold_p ) == 0 )
            next_hold = (uint8_t) ( ( 1 + srng.below( f0.nsb ) ) | ( 1 + srng.below( 6 ) ) << 4 );
        /* an expiry by the raw cap is always recorded: it is a decision in replay */
        if( t != cur || sw >= 0 || lev >= lim ) record( 'P', lev, t, sw, dur );
        else keep = true;
    }
    switch_to( t, keep );
}
/** the current thread cannot or does not want to go on **/
static void __attribute__((noinline)) voluntary()
{
    lev++;
    if( tso ) commit_all();
    next_hold = 0;
    sync_time();
    note_limit();
    Fiber &f = G->f[ cur ];
    const uint64_t key = f.vidx++;
    int t, sw = -1;
    uint64_t dur = 0;
    if( mode == M_REPLAY ) {
        int want = -1;
        while( f.vpos < f.vend && RS->dec[ f.vpos ].lev < key ) f.vpos++;
        if( f.vpos < f.vend && RS->dec[ f.vpos ].lev == key ) {
            const Decision &d = RS->dec[ f.vpos++ ];
            want = d.target;
            if( d.stallwho >= 0 && d.stallwho < nf ) { sw = d.stallwho; dur = d.dur; do_stall( sw, dur ); }
        }
        candidates();
        t = want >= 0 && is_cand( want ) ? want : rr_next();
    } else {
        sw = pick_stall( dur );
        if( sw >= 0 ) do_stall( sw, dur );
        candidates();
        t = choose( 'V' );
        if( ncand > 1 || sw >= 0 ) record( 'V', key, t, sw, dur );
    }
    switch_to( t );
}
void yield() { if( insim ) voluntary(); }
void calm() { calmed = true; }
void progress() { fence(); moved_at = total; }
void alive() { moved_at = total; }
void freeze( int id, bool on ) { commit_all(); G->f[ id ].frozen = on; hash1( 0xF2EE0000 + 2 * (unsigned) id + on ); }
static void sleep_until( uint64_t w )
{
    Fiber &f = G->f[ cur ];
    f.state = S_SLEEP;
    f.wake  = w;
    voluntary();
}
void sleep_ns( uint64_t ns )
{
    uint64_t v;
    sync_time();
    if( fault( F_OVERSLEEP, 1000, 50000000, v ) ) ns += v;
    sleep_until( vnow + ns );
}
static void block_on( const void *a ) { Fiber &f = G->f[ cur ]; f.state = S_BLOCK; f.waiton = a; f.timed = false; voluntary(); }
/** returns false on timeout **/
static bool block_on_until( const void *a, uint64_t w )
{
    Fiber &f = G->f[ cur ];
    f.state = S_BLOCK;
    f.waiton = a;
    f.timed = true;
    f.wake = w;
    voluntary();
    f.timed = false;
    const bool to = f.waiton == a;
    f.waiton = nullptr;
    return ! to;
}
static void wake_all( const void *a )
{
    for( int i = 0; i < nf; i++ ) {
        Fiber &f = G->f[ i ];
        if( f.state == S_BLOCK && f.waiton == a ) { f.state = S_RUN; f.waiton = nullptr; f.timed = false; }
    }
}
static void wake_one( const void *a )
{
    int c[ MAXF ], n = 0;
    for( int i = 0; i < nf; i++ ) if( G->f[ i ].state == S_BLOCK && G->f[ i ].waiton == a ) c[ n++ ] = i;
    if( ! n ) return;
    Fiber &f = G->f[ c[ 0 ] ];
    f.state = S_RUN;
    f.waiton = nullptr;
    f.timed = false;
}

/* ------------------------------------------------------------------ fibers */
static void __attribute__((noinline)) fiber_exit()
{
    Fiber &f = G->f[ cur ];
    while( f.ndtor ) { f.ndtor--; f.dtor[ f.ndtor ].f( f.dtor[ f.ndtor ].o ); }
    key_dtors();
    f.state = S_DONE;
    wake_all( &f );
    zombie = cur;
    voluntary();
    __builtin_trap();
}
static void fiber_body() noexcept
{
    reap_zombie();
    Fiber &f = G->f[ cur ];
    f.ret = f.fn( f.arg );
}
extern "C" void sim_fiber_entry()
{
    fiber_body();
    fiber_exit();
}
static int fiber_new( void *(*fn)( void * ), void *arg )
{
    if( nf >= MAXF ) fail( "too-many-threads", "more than %d threads created in one run", MAXF );
    const int id = nf++;
    Fiber &f = G->f[ id ];
    memset( (void *) &f, 0, offsetof( Fiber, tls ) );
    f.fn  = fn;
    f.arg = arg;
    f.core = -1;
    f.state = S_RUN;
    const size_t sz = id == 0 ? STACK0 : STACK;
    char *lo = stack_lo( id );
    if( mmap( lo, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0 ) != lo )
        _exit( 97 );
    uintptr_t *sp = (uintptr_t *) ( lo + sz );
    *--sp = 0; /* alignment: entry sees rsp % 16 == 8 */
    *--sp = (uintptr_t) sim_fiber_entry;
    for( int i = 0; i < 6; i++ ) *--sp = 0;
    f.sp = sp;
    memcpy( f.tls, tls_init, tls_size );
    f.wr.seed( mix( RS->seed, 0x5000 + id ) );
    f.weight = 1ull << srng.below( 9 );
    f.prio   = (int64_t) srng.below( 1 << 20 );
    if( mode == M_REPLAY ) {
        /* decisions are sorted by (type, fiber, lev) */
        size_t i = 0;
        auto seek = [&]( uint8_t ty, size_t &b, size_t &e ) {
            size_t lo2 = 0, hi2 = RS->ndec;
            auto key = [&]( size_t k ) { return ( (uint32_t) RS->dec[ k ].type << 16 ) | RS->dec[ k ].fiber; };
            const uint32_t want = ( (uint32_t) ty << 16 ) | (uint32_t) id;
            while( lo2 < hi2 ) { size_t m = ( lo2 + hi2 ) / 2; if( key( m ) < want ) lo2 = m + 1; else hi2 = m; }
            b = lo2;
            hi2 = RS->ndec;
            while( lo2 < hi2 ) { size_t m = ( lo2 + hi2 ) / 2; if( key( m ) <= want ) lo2 = m + 1; else hi2 = m; }
            e = lo2;
        };
        (void) i;
        seek( 'P', f.ppos, f.pend );
        seek( 'V', f.vpos, f.vend );
    }
    return id;
}
int spawn( void (*fn)( void * ), void *arg )
{
    struct Th { void (*f)( void * ); void *a; };
    Th *t = (Th *) __libc_malloc( sizeof( Th ) );
    t->f = fn;
    t->a = arg;
    const int id = fiber_new( []( void *p ) -> void * {
        Th x = *(Th *) p;
        x.f( x.a );
        return nullptr;
    }, t );
    uint64_t v;
    if( fault( F_START, 1000, 20000000, v ) ) { sync_time(); G->f[ id ].stall = vnow + v; }
    return id;
}
void join( int id )
{
    Fiber &f = G->f[ id ];
    while( f.state != S_DONE ) block_on( &f );
    f.joined = true;
}
int self() { return cur; }
uint64_t wrnd() { return G->f[ cur ].wr.next(); }
uint64_t wbelow( uint64_t n ) { return G->f[ cur ].wr.below( n ); }
void hist( uint64_t v ) { fence(); R->hhash = ( R->hhash ^ v ) * 0x9E3779B97F4A7C15ull; R->hhash ^= R->hhash >> 31; }
void probe( const char *name, uint64_t n )
{
    for( int i = 0; i < R->nprobe; i++ )
        if( R->probe[ i ].name == name || ! strcmp( R->probe[ i ].name, name ) ) { R->probe[ i ].n += n; return; }
    if( R->nprobe < MAXPROBE ) { R->probe[ R->nprobe ].name = name; R->probe[ R->nprobe++ ].n = n; }
}
int live_threads()
{
    int n = 0;
    for( int i = 1; i < nf; i++ ) if( G->f[ i ].state != S_DONE ) n++;
    return n;
}
int unjoined_threads()
{
    int n = 0;
    for( int i = 1; i < nf; i++ ) if( ! G->f[ i ].joined && ! G->f[ i ].detached ) n++;
    return n;
}
int threads_created() { return nf - 1; }
int pins( Pin *out, int max ) { int n = G->npin < max ? G->npin : max; memcpy( (void *) out, G->pin, sizeof( Pin ) * n ); return n; }
long pin_of( int t ) { return G->f[ t ].core; }
int pin_count( int t ) { return G->f[ t ].npins; }

/* -------------------------------------------------------------- heap model */
static unsigned char *const SH = (unsigned char *) SH_BASE;
bool in_heap( const void *p ) { return in_ar( (uintptr_t) p ); }
static unsigned char &sh( uintptr_t a ) { return SH[ ( a - AR_BASE ) >> 3 ]; }
struct Hdr { uint32_t blk, magic; uint64_t size; };
constexpr uint32_t MAGIC = 0x51AB10C5;

static const char *shname( unsigned char s )
{
    return s == 0xFD ? "freed memory" : s == 0 ? "unallocated memory" : "memory outside its block";
}
static void describe( uintptr_t a, char *b, size_t n )
{
    /* nearest block start at or below a */
    uintptr_t g = a & ~7ull;
    int i = 0;
    for( ; i < 65536 && g >= AR_BASE; i++, g -= 8 ) if( sh( g ) == 0xFB ) break;
    if( i < 65536 && g >= AR_BASE ) {
        /* 0xFB marks the first 8 bytes of the 16-byte header */
        const Hdr *h = (const Hdr *) g;
        if( h->magic == MAGIC ) {
            snprintf( b, n, "offset %ld of a %llu-byte block%s", (long) ( a - g - 16 ),
                      (unsigned long long) h->size, G->blk[ h->blk ].live ? "" : " (freed)" );
            return;
        }
    }
    snprintf( b, n, "unknown block" );
}
static void __attribute__((noinline, cold)) bad_access( uintptr_t a, size_t n, bool w, void *pc )
{
    char d[ 128 ];
    const unsigned char s = sh( a );
    describe( a, d, sizeof d );
    Dl_info di;
    (void) di;
    fail( s == 0xFD ? "use-after-free" : "bad-access", "%s of %zu bytes in %s: %s pc=%p", w ? "write" : "read", n,
          shname( s ), d, pc );
}
static inline bool granule_ok( uintptr_t a, size_t n )
{
    const unsigned char s = sh( a );
    return s <= 8 && ( a & 7 ) + n <= s;
}
static inline void check( uintptr_t a, size_t n, bool w, void *pc )
{
    if( ! in_ar( a ) ) return;
    const size_t off = a & 7;
    if( off + n <= 8 ) { if( __builtin_expect( ! granule_ok( a, n ), 0 ) ) bad_access( a, n, w, pc ); return; }
    size_t first = 8 - off;
    if( ! granule_ok( a, first ) ) bad_access( a, n, w, pc );
    uintptr_t p = a + first, e = a + n;
    while( p < e ) {
        const size_t m = e - p < 8 ? e - p : 8;
        if( ! granule_ok( p, m ) ) bad_access( p, n, w, pc );
        p += m;
    }
}
static size_t cls_size( int c )    /* payload capacity of size class c */
{
    if( c < 64 ) return (size_t) ( c + 1 ) * 16;
    size_t s = 1024;
    for( int i = 64; i <= c; i++ ) s = ( s + s / 4 + 15 ) & ~(size_t) 15;
    return s;
}
static int cls_of( size_t n )
{
    if( n == 0 ) n = 1;
    if( n <= 1024 ) return (int) ( ( n + 15 ) / 16 ) - 1;
    int c = 64;
    while( cls_size( c ) < n ) c++;
    return c;
}
static void shadow_set( uintptr_t a, size_t n )
{
    size_t full = n >> 3;
    memset( &sh( a ), 8, full );
    if( n & 7 ) sh( a + ( full << 3 ) ) = (unsigned char) ( n & 7 );
}
static void *ar_alloc( size_t n, size_t align )
{
    int c = cls_of( n );
    if( c > 250 ) return nullptr;
    uint32_t b = 0;
    uintptr_t p = 0;
    const size_t capn = cls_size( c );
    if( align <= 16 && G->freelist[ c ] ) {
        b = G->freelist[ c ];
        G->freelist[ c ] = G->blk[ b ].next;
        p = G->blk[ b ].a;
    } else {
        if( G->nblk + 1 >= MAXBLK ) fail( "memory-exhausted", "more than %zu blocks allocated in one run", MAXBLK );
        const int s = (int) ( ( c * 7 + c / 5 ) & ( NSUB - 1 ) );
        uintptr_t q = G->subcur[ s ] + 16;
        q = ( q + align - 1 ) & ~( align - 1 );
        if( q + capn + 16 > G->subend[ s ] ) {
            fail( "memory-exhausted", "simulated heap of %zu MB exhausted by a request of %zu bytes", AR_SIZE >> 20, n );
        }
        G->subcur[ s ] = ( q + capn + 16 + 15 ) & ~(uintptr_t) 15;
        b = ++G->nblk;
        p = q;
        if( G->nblk > MAXBLK / 2 || G->subend[ s ] - G->subcur[ s ] < AR_SIZE / NSUB / 2 ) heap_tight = true;
        G->blk[ b ].a = p;
        G->blk[ b ].big = align > 16;
        G->blk[ b ].cls = (uint8_t) c;
    }
    Blk &k = G->blk[ b ];
    k.live = 1;
    k.n    = (uint32_t) n;
    k.seq  = ++G->heapseq;
    Hdr *h = (Hdr *) ( p - 16 );
    h->blk = b;
    h->magic = MAGIC;
    h->size  = n;
    sh( p - 16 ) = 0xFB;
    sh( p - 8 )  = 0xFA;
    memset( &sh( p ), 0xFA, ( capn + 16 ) >> 3 );
    shadow_set( p, n );
    memset( (void *) p, fillpat, n );
    R->allocs++;
    return (void *) p;
}
static Blk *blk_of( const void *v )
{
    const uintptr_t p = (uintptr_t) v;
    if( ! in_ar( p ) || ( p & 15 ) || p < AR_BASE + 16 ) return nullptr;
    if( sh( p - 16 ) != 0xFB ) return nullptr;
    const Hdr *h = (const Hdr *) ( p - 16 );
    if( h->magic != MAGIC || h->blk > G->nblk ) return nullptr;
    Blk &b = G->blk[ h->blk ];
    return b.a == p ? &b : nullptr;
}
static void ar_free( void *v )
{
    Blk *b = blk_of( v );
    if( ! b ) fail( "bad-free", "free of an address that is not a heap block" );
    if( ! b->live ) fail( "double-free", "%u-byte block freed twice", b->n );
    b->live = 0;
    memset( v, 0xDD, b->n );
    memset( &sh( (uintptr_t) v ), 0xFD, ( b->n + 7 ) >> 3 );
    if( b->big ) return;
    const uint32_t id = (uint32_t) ( b - G->blk );
    uint32_t out = id;
    if( quar < 0 && ! heap_tight ) return;
    if( quar > 0 && ! heap_tight ) {
        const uint32_t slot = G->qhead;
        out = G->q[ slot ];
        G->q[ slot ] = id;
        G->qhead = ( G->qhead + 1 ) % quar;
    }
    if( out ) {
        Blk &o = G->blk[ out ];
        o.next = G->freelist[ o.cls ];
        G->freelist[ o.cls ] = out;
    }
}
static bool alloc_fault()
{
    uint64_t v;
    return fault( F_ALLOC, 1, 1, v );
}
bool heap_live( const void *p )
{
    const uintptr_t a = (uintptr_t) p;
    if( ! in_ar( a ) ) return false;
    return granule_ok( a, 1 );
}
uint64_t heap_mark() { return G->heapseq; }

struct Root { uintptr_t lo, hi; };
static Root roots[ 128 ];
static int  nroots;
static int phdr_cb( struct dl_phdr_info *i, size_t, void * )
{
    for( int k = 0; k < i->dlpi_phnum; k++ ) {
        const ElfW( Phdr ) &p = i->dlpi_phdr[ k ];
        if( p.p_type == PT_LOAD && ( p.p_flags & PF_W ) && nroots < 128 ) {
            roots[ nroots ].lo = i->dlpi_addr + p.p_vaddr;
            roots[ nroots++ ].hi = i->dlpi_addr + p.p_vaddr + p.p_memsz;
        }
    }
    return 0;
}
static uint32_t *order;
static uint32_t norder;
static uint32_t find_block( uintptr_t a )
{
    uint32_t lo = 0, hi = norder;
    while( lo < hi ) {
        const uint32_t m = ( lo + hi ) / 2;
        if( G->blk[ order[ m ] ].a <= a ) lo = m + 1; else hi = m;
    }
    if( ! lo ) return 0;
    const Blk &b = G->blk[ order[ lo - 1 ] ];
    if( a < b.a + ( b.n ? b.n : 1 ) ) return order[ lo - 1 ];
    return 0;
}
static uint32_t *work;
static uint32_t nwork;
static void __attribute__((no_sanitize("address"))) scan( uintptr_t lo, uintptr_t hi )
{
    lo = ( lo + 7 ) & ~7ull;
    for( ; lo + 8 <= hi; lo += 8 ) {
        const uintptr_t v = *(const uintptr_t *) lo;
        if( ! in_ar( v ) ) continue;
        const uint32_t b = find_block( v );
        if( b && ! G->blk[ b ].mark ) { G->blk[ b ].mark = 1; work[ nwork++ ] = b; }
    }
}
size_t heap_leaks( uint64_t mark, char *what, size_t n )
{
    HostScope hs;
    commit_all();
    order = (uint32_t *) mmap( nullptr, MAXBLK * 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 );
    work  = G->stackscan;
    norder = nwork = 0;
    for( uint32_t i = 1; i <= G->nblk; i++ ) { G->blk[ i ].mark = 0; if( G->blk[ i ].live ) order[ norder++ ] = i; }
    qsort( order, norder, 4, []( const void *a, const void *b ) {
        const uintptr_t x = G->blk[ *(const uint32_t *) a ].a, y = G->blk[ *(const uint32_t *) b ].a;
        return x < y ? -1 : x > y;
    } );
    nroots = 0;
    dl_iterate_phdr( phdr_cb, nullptr );
    for( int i = 0; i < nroots; i++ ) scan( roots[ i ].lo, roots[ i ].hi );
    scan( (uintptr_t) tls_base, (uintptr_t) tls_base + tls_size );
    jmp_buf jb;
    setjmp( jb );
    for( int i = 0; i < nf; i++ ) {
        if( G->f[ i ].state == S_DONE ) continue;
        const uintptr_t hi = (uintptr_t) stack_lo( i ) + ( i == 0 ? STACK0 : STACK );
        const uintptr_t lo = i == cur ? (uintptr_t) __builtin_alloca( 16 ) : (uintptr_t) G->f[ i ].sp;
        scan( lo, hi );
    }
    while( nwork ) {
        const Blk &b = G->blk[ work[ --nwork ] ];
        scan( b.a, b.a + b.n );
    }
    size_t leaks = 0, len = 0;
    if( n ) what[ 0 ] = 0;
    for( uint32_t i = 1; i <= G->nblk; i++ ) {
        const Blk &b = G->blk[ i ];
        if( ! b.live || b.mark || b.seq <= mark ) continue;
        if( leaks < 8 && len < n ) {
            const uintptr_t first = b.n >= 8 ? *(uintptr_t *) b.a : 0;
            len += snprintf( what + len, n - len, " %u@%lx", b.n, (unsigned long) ( first < 0x10000000 ? first : 0 ) );
        }
        leaks++;
    }
    munmap( order, MAXBLK * 4 );
    return leaks;
}

/* ---------------------------------------------------------- memory accesses */
static inline void step( const void *a, bool w )
{
    const uint64_t k = (uint64_t) a >> 3;
    Heat &e = G->tab[ ( k * 0x9E3779B97F4A7C15ull ) >> 53 ];
    const uint64_t me = 1ull << ( cur & 63 );
    if( e.key != k ) { e.key = k; e.mask = 0; e.wmask = 0; }
    e.mask |= me;
    if( w ) e.wmask |= me;
    if( e.mask == me ) cnt -= 1;
    else cnt -= e.wmask ? 256 : 4;
    lev++;
    if( __builtin_expect( cnt <= 0 || lev >= lim, 0 ) ) preempt();
}
#define PC __builtin_return_address( 0 )
static inline void acc( const void *a, size_t n, bool w, void *pc )
{
    if( ! on() ) return;
    step( a, w );
    check( (uintptr_t) a, n, w, pc );
    if( w && tso ) sb_note( a, n );
}
/** an access that is a fence: read-modify-write, sequentially consistent store **/
static inline void accf( const void *a, size_t n, void *pc )
{
    if( ! on() ) return;
    step( a, true );
    check( (uintptr_t) a, n, true, pc );
    G->f[ cur ].nsb = 0;
}
} // namespace sim
using namespace sim;

extern "C" {
void __tsan_init() {}
void __tsan_func_entry( void * ) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW( n ) \
    void __tsan_read##n( void *a ) { acc( a, n, false, PC ); } \
    void __tsan_write##n( void *a ) { acc( a, n, true, PC ); } \
    void __tsan_unaligned_read##n( void *a ) { acc( a, n, false, PC ); } \
    void __tsan_unaligned_write##n( void *a ) { acc( a, n, true, PC ); } \
    void __tsan_volatile_read##n( void *a ) { acc( a, n, false, PC ); } \
    void __tsan_volatile_write##n( void *a ) { acc( a, n, true, PC ); } \
    void __tsan_unaligned_volatile_read##n( void *a ) { acc( a, n, false, PC ); } \
    void __tsan_unaligned_volatile_write##n( void *a ) { acc( a, n, true, PC ); } \
    void __tsan_read_write##n( void *a ) { acc( a, n, true, PC ); } \
    void __tsan_unaligned_read_write##n( void *a ) { acc( a, n, true, PC ); }
RW( 1 ) RW( 2 ) RW( 4 ) RW( 8 ) RW( 16 )
void __tsan_vptr_update( void **a, void * ) { acc( a, 8, true, PC ); }
void __tsan_vptr_read( void **a ) { acc( a, 8, false, PC ); }
void __tsan_read_range( void *a, size_t n ) { if( n ) acc( a, n, false, PC ); }
void __tsan_write_range( void *a, size_t n ) { if( n ) acc( a, n, true, PC ); }
void *__tsan_memcpy( void *d, const void *s, size_t n )
{
    if( n && on() ) { acc( s, n, false, PC ); acc( d, n, true, PC ); }
    return memmove( d, s, n );
}
void *__tsan_memmove( void *d, const void *s, size_t n )
{
    if( n && on() ) { acc( s, n, false, PC ); acc( d, n, true, PC ); }
    return memmove( d, s, n );
}
void *__tsan_memset( void *d, int c, size_t n )
{
    if( n && on() ) acc( d, n, true, PC );
    return memset( d, c, n );
}
#define ATOMIC( B, T ) \
    T __tsan_atomic##B##_load( const volatile T *a, int ) { acc( (void *) a, B / 8, false, PC ); return *a; } \
    void __tsan_atomic##B##_store( volatile T *a, T v, int mo ) { if( mo == __ATOMIC_SEQ_CST ) accf( (void *) a, B / 8, PC ); else acc( (void *) a, B / 8, true, PC ); *a = v; } \
    T __tsan_atomic##B##_exchange( volatile T *a, T v, int ) { accf( (void *) a, B / 8, PC ); T o = *a; *a = v; return o; } \
    T __tsan_atomic##B##_fetch_add( volatile T *a, T v, int ) { accf( (void *) a, B / 8, PC ); T o = *a; *a = o + v; return o; } \
    T __tsan_atomic##B##_fetch_sub( volatile T *a, T v, int ) { accf( (void *) a, B / 8, PC ); T o = *a; *a = o - v; return o; } \
    T __tsan_atomic##B##_fetch_and( volatile T *a, T v, int ) { accf( (void *) a, B / 8, PC ); T o = *a; *a = o & v; return o; } \
    T __tsan_atomic##B##_fetch_or( volatile T *a, T v, int ) { accf( (void *) a, B / 8, PC ); T o = *a; *a = o | v; return o; } \
    T __tsan_atomic##B##_fetch_xor( volatile T *a, T v, int ) { accf( (void *) a, B / 8, PC ); T o = *a; *a = o ^ v; return o; } \
    T __tsan_atomic##B##_fetch_nand( volatile T *a, T v, int ) { accf( (void *) a, B / 8, PC ); T o = *a; *a = ~( o & v ); return o; } \
    int __tsan_atomic##B##_compare_exchange_strong( volatile T *a, T *c, T v, int, int ) \
    { accf( (void *) a, B / 8, PC ); if( *a == *c ) { *a = v; return 1; } *c = *a; return 0; } \
    int __tsan_atomic##B##_compare_exchange_weak( volatile T *a, T *c, T v, int, int ) \
    { accf( (void *) a, B / 8, PC ); if( *a == *c ) { *a = v; return 1; } *c = *a; return 0; } \
    T __tsan_atomic##B##_compare_exchange_val( volatile T *a, T c, T v, int, int ) \
    { accf( (void *) a, B / 8, PC ); T o = *a; if( o == c ) *a = v; return o; }
ATOMIC( 8, uint8_t ) ATOMIC( 16, uint16_t ) ATOMIC( 32, uint32_t ) ATOMIC( 64, uint64_t ) ATOMIC( 128, unsigned __int128 )
void __tsan_atomic_thread_fence( int mo ) { if( mo == __ATOMIC_SEQ_CST && on() ) G->f[ cur ].nsb = 0; }
void __tsan_atomic_signal_fence( int ) {}

/* ------------------------------------------------------------------- malloc */
void *malloc( size_t n )
{
    if( ! on() ) return __libc_malloc( n );
    if( alloc_fault() ) { errno = ENOMEM; return nullptr; }
    void *p = ar_alloc( n, 16 );
    if( ! p ) errno = ENOMEM;
    return p;
}
void free( void *p )
{
    if( ! p ) return;
    if( in_ar( (uintptr_t) p ) ) { const int e = errno; if( tso && insim ) commit_all(); ar_free( p ); errno = e; }
    else __libc_free( p );
}
void *calloc( size_t a, size_t b )
{
    if( ! on() ) return __libc_calloc( a, b );
    size_t n;
    if( __builtin_mul_overflow( a, b, &n ) || alloc_fault() ) { errno = ENOMEM; return nullptr; }
    void *p = ar_alloc( n, 16 );
    if( p ) memset( p, 0, n ); else errno = ENOMEM;
    return p;
}
void *realloc( void *o, size_t n )
{
    if( o && ! in_ar( (uintptr_t) o ) ) return __libc_realloc( o, n );
    if( ! o ) return malloc( n );
    if( alloc_fault() ) { errno = ENOMEM; return nullptr; }
    Blk *b = blk_of( o );
    if( ! b || ! b->live ) fail( "bad-free", "realloc of an address that is not a live heap block" );
    void *p = ar_alloc( n, 16 );
    if( ! p ) { errno = ENOMEM; return nullptr; }
    if( tso ) commit_all();
    memcpy( p, o, b->n < n ? b->n : n );
    ar_free( o );
    return p;
}
void *memalign( size_t al, size_t n )
{
    if( ! on() ) return __libc_memalign( al, n );
    if( alloc_fault() ) { errno = ENOMEM; return nullptr; }
    return ar_alloc( n, al < 16 ? 16 : al );
}
void *aligned_alloc( size_t al, size_t n ) { return memalign( al, n ); }
void *valloc( size_t n ) { return memalign( 4096, n ); }
int posix_memalign( void **out, size_t al, size_t n )
{
    if( al < sizeof( void * ) || ( al & ( al - 1 ) ) ) return EINVAL;
    const int e = errno;
    void *p = memalign( al, n );
    errno = e;
    if( ! p ) return ENOMEM;
    *out = p;
    return 0;
}
size_t malloc_usable_size( void *p )
{
    if( ! p ) return 0;
    if( in_ar( (uintptr_t) p ) ) { Blk *b = blk_of( p ); return b ? b->n : 0; }
    static size_t (*real)( void * ) = (size_t (*)( void * )) dlsym( RTLD_NEXT, "malloc_usable_size" );
    return real( p );
}

/* ------------------------------------------------------------------ threads */
int pthread_create( pthread_t *t, const pthread_attr_t *at, void *(*fn)( void * ), void *arg )
{
    if( ! insim ) _exit( 98 );
    uint64_t v;
    accf( t, 8, PC );
    if( fault( F_THREAD, 1, 1, v ) ) return EAGAIN;
    const int id = fiber_new( fn, arg );
    *t = (pthread_t) (uintptr_t) ( 0x7000 + id );
    if( at ) {
        int d = 0;
        pthread_attr_getdetachstate( at, &d );
        G->f[ id ].detached = d == PTHREAD_CREATE_DETACHED;
    }
    if( fault( F_START, 1000, 20000000, v ) ) { sync_time(); G->f[ id ].stall = vnow + v; }
    hash1( 0x7ead + id );
    voluntary();
    return 0;
}
static int fid( pthread_t t ) { return (int) ( (uintptr_t) t - 0x7000 ); }
int pthread_join( pthread_t t, void **ret )
{
    if( ! insim ) return EINVAL;
    const int id = fid( t );
    if( id < 0 || id >= nf ) fail( "bad-thread-op", "join of an unknown thread" );
    if( id == cur ) return EDEADLK;
    Fiber &f = G->f[ id ];
    if( f.joined || f.detached ) fail( "bad-thread-op", "join of a thread already joined or detached" );
    while( f.state != S_DONE ) block_on( &f );
    f.joined = true;
    if( ret ) *ret = f.ret;
    return 0;
}
int pthread_detach( pthread_t t )
{
    const int id = fid( t );
    if( id < 0 || id >= nf ) return ESRCH;
    G->f[ id ].detached = true;
    return 0;
}
static pthread_t (*real_self)();
pthread_t pthread_self()
{
    if( insim ) return (pthread_t) (uintptr_t) ( 0x7000 + cur );
    if( ! real_self ) real_self = (pthread_t (*)()) dlsym( RTLD_NEXT, "pthread_self" );
    return real_self();
}
int pthread_once( pthread_once_t *o, void (*f)() )
{
    volatile int *p = (volatile int *) o;
    fence();
    for( ;; ) {
        if( *p == 2 ) return 0;
        if( *p == 0 ) break;
        if( insim ) block_on( o );
    }
    *p = 1;
    struct Und { volatile int *p; bool ok; ~Und() { fence(); *p = ok ? 2 : 0; if( insim ) wake_all( (void *) p ); } } u{ p, false };
    f();
    u.ok = true;
    return 0;
}
struct Mx { int owner, depth, pad[ 2 ], kind, pad2[ 5 ]; };
static_assert( sizeof( Mx ) <= sizeof( pthread_mutex_t ), "" );
int pthread_mutex_init( pthread_mutex_t *m, const pthread_mutexattr_t *a )
{
    memset( m, 0, sizeof *m );
    if( a ) { int k = 0; pthread_mutexattr_gettype( a, &k ); ( (Mx *) m )->kind = k; }
    return 0;
}
int pthread_mutex_destroy( pthread_mutex_t * ) { return 0; }
int pthread_mutex_lock( pthread_mutex_t *mm )
{
    Mx *m = (Mx *) mm;
    if( ! on() ) return 0;
    accf( m, 4, PC );
    if( m->owner == cur + 1 ) {
        if( m->kind == PTHREAD_MUTEX_RECURSIVE ) { m->depth++; return 0; }
        if( m->kind == PTHREAD_MUTEX_ERRORCHECK ) return EDEADLK;
    }
    while( m->owner ) { R->contended++; block_on( m ); check( (uintptr_t) m, 4, true, PC ); }
    m->owner = cur + 1;
    m->depth = 1;
    return 0;
}
int pthread_mutex_trylock( pthread_mutex_t *mm )
{
    Mx *m = (Mx *) mm;
    if( ! on() ) return 0;
    accf( m, 4, PC );
    uint64_t v;
    if( m->owner == cur + 1 && m->kind == PTHREAD_MUTEX_RECURSIVE ) { m->depth++; return 0; }
    if( m->owner ) return EBUSY;
    if( fault( F_TRYLOCK, 1, 1, v ) ) return EBUSY;
    m->owner = cur + 1;
    m->depth = 1;
    return 0;
}
int pthread_mutex_unlock( pthread_mutex_t *mm )
{
    Mx *m = (Mx *) mm;
    if( ! on() ) return 0;
    accf( m, 4, PC );
    if( m->owner != cur + 1 ) {
        if( m->kind == PTHREAD_MUTEX_ERRORCHECK || m->kind == PTHREAD_MUTEX_RECURSIVE ) return EPERM;
        fail( "bad-unlock", "unlock of a mutex %s", m->owner ? "held by another thread" : "nobody holds" );
    }
    if( --m->depth > 0 ) return 0;
    m->owner = 0;
    wake_all( m );
    return 0;
}
int pthread_cond_init( pthread_cond_t *c, const pthread_condattr_t * ) { memset( c, 0, sizeof *c ); return 0; }
int pthread_cond_destroy( pthread_cond_t * ) { return 0; }
static int cond_wait( pthread_cond_t *c, pthread_mutex_t *m, uint64_t until )
{
    pthread_mutex_unlock( m );
    bool ok = true;
    if( until == UINT64_MAX ) block_on( c ); else ok = block_on_until( c, until );
    pthread_mutex_lock( m );
    return ok ? 0 : ETIMEDOUT;
}
static uint64_t to_ns( const struct timespec *t ) { return (uint64_t) t->tv_sec * 1000000000ull + t->tv_nsec; }
constexpr uint64_t WALL0 = 1700000000ull * 1000000000ull;
static uint64_t abs_ns( int clk, const struct timespec *t )
{
    const uint64_t v = to_ns( t );
    if( clk == CLOCK_MONOTONIC ) return v < 1000000000ull ? 0 : v - 1000000000ull;
    const uint64_t b = WALL0 + wallskew;
    return v < b ? 0 : v - b;
}
int pthread_cond_wait( pthread_cond_t *c, pthread_mutex_t *m ) { return cond_wait( c, m, UINT64_MAX ); }
int pthread_cond_timedwait( pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t )
{ return cond_wait( c, m, abs_ns( CLOCK_REALTIME, t ) ); }
int pthread_cond_clockwait( pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *t )
{ return cond_wait( c, m, abs_ns( k, t ) ); }
int pthread_cond_signal( pthread_cond_t *c ) { if( on() ) { accf( c, 4, PC ); wake_one( c ); } return 0; }
int pthread_cond_broadcast( pthread_cond_t *c ) { if( on() ) { accf( c, 4, PC ); wake_all( c ); } return 0; }
struct Rw { int readers, writer, pad[ 8 ]; };
int pthread_rwlock_init( pthread_rwlock_t *l, const pthread_rwlockattr_t * ) { memset( l, 0, sizeof *l ); return 0; }
int pthread_rwlock_destroy( pthread_rwlock_t * ) { return 0; }
int pthread_rwlock_rdlock( pthread_rwlock_t *l )
{ if( ! on() ) return 0; Rw *r = (Rw *) l; accf( l, 4, PC ); while( r->writer ) block_on( l ); r->readers++; return 0; }
int pthread_rwlock_wrlock( pthread_rwlock_t *l )
{ if( ! on() ) return 0; Rw *r = (Rw *) l; accf( l, 4, PC ); while( r->writer || r->readers ) block_on( l ); r->writer = 1; return 0; }
int pthread_rwlock_tryrdlock( pthread_rwlock_t *l )
{ if( ! on() ) return 0; Rw *r = (Rw *) l; accf( l, 4, PC ); if( r->writer ) return EBUSY; r->readers++; return 0; }
int pthread_rwlock_trywrlock( pthread_rwlock_t *l )
{ if( ! on() ) return 0; Rw *r = (Rw *) l; accf( l, 4, PC ); if( r->writer || r->readers ) return EBUSY; r->writer = 1; return 0; }
int pthread_rwlock_unlock( pthread_rwlock_t *l )
{ if( ! on() ) return 0; Rw *r = (Rw *) l; accf( l, 4, PC ); if( r->writer ) r->writer = 0; else r->readers--; wake_all( l ); return 0; }
/* what the library does not use today: locks with time limits, spin locks, semaphores,
 * barriers, keys, futexes (std::future) */
static int timed_lock( pthread_mutex_t *mm, int clk, const struct timespec *t )
{
    Mx *m = (Mx *) mm;
    if( ! on() ) return 0;
    accf( m, 4, PC );
    if( m->owner == cur + 1 && m->kind == PTHREAD_MUTEX_RECURSIVE ) { m->depth++; return 0; }
    sync_time();
    const uint64_t until = abs_ns( clk, t );
    while( m->owner ) {
        R->contended++;
        if( vnow >= until || ! block_on_until( m, until ) ) { if( m->owner ) return ETIMEDOUT; break; }
        sync_time();
    }
    m->owner = cur + 1;
    m->depth = 1;
    return 0;
}
int pthread_mutex_timedlock( pthread_mutex_t *m, const struct timespec *t ) { return timed_lock( m, CLOCK_REALTIME, t ); }
int pthread_mutex_clocklock( pthread_mutex_t *m, clockid_t k, const struct timespec *t ) { return timed_lock( m, k, t ); }
static int timed_rw( pthread_rwlock_t *l, bool wr, int clk, const struct timespec *t )
{
    Rw *r = (Rw *) l;
    if( ! on() ) return 0;
    accf( l, 4, PC );
    sync_time();
    const uint64_t until = abs_ns( clk, t );
    while( r->writer || ( wr && r->readers ) ) {
        if( vnow >= until || ! block_on_until( l, until ) ) { if( r->writer || ( wr && r->readers ) ) return ETIMEDOUT; break; }
        sync_time();
    }
    if( wr ) r->writer = 1; else r->readers++;
    return 0;
}
int pthread_rwlock_timedrdlock( pthread_rwlock_t *l, const struct timespec *t ) { return timed_rw( l, false, CLOCK_REALTIME, t ); }
int pthread_rwlock_timedwrlock( pthread_rwlock_t *l, const struct timespec *t ) { return timed_rw( l, true, CLOCK_REALTIME, t ); }
int pthread_rwlock_clockrdlock( pthread_rwlock_t *l, clockid_t k, const struct timespec *t ) { return timed_rw( l, false, k, t ); }
int pthread_rwlock_clockwrlock( pthread_rwlock_t *l, clockid_t k, const struct timespec *t ) { return timed_rw( l, true, k, t ); }
int pthread_spin_init( pthread_spinlock_t *l, int ) { *l = 0; return 0; }
int pthread_spin_destroy( pthread_spinlock_t * ) { return 0; }
int pthread_spin_lock( pthread_spinlock_t *l )
{
    if( ! on() ) return 0;
    accf( (const void *) l, 4, PC );
    while( *l ) { R->contended++; block_on( (const void *) l ); }
    *l = 1;
    return 0;
}
int pthread_spin_trylock( pthread_spinlock_t *l )
{ if( ! on() ) return 0; accf( (const void *) l, 4, PC ); if( *l ) return EBUSY; *l = 1; return 0; }
int pthread_spin_unlock( pthread_spinlock_t *l )
{ if( ! on() ) return 0; accf( (const void *) l, 4, PC ); *l = 0; wake_all( (const void *) l ); return 0; }
struct Sm { unsigned n; };
int sem_init( sem_t *s, int, unsigned n ) { memset( s, 0, sizeof *s ); ( (Sm *) s )->n = n; return 0; }
int sem_destroy( sem_t * ) { return 0; }
int sem_post( sem_t *s ) { if( ! on() ) return 0; accf( s, 4, PC ); ( (Sm *) s )->n++; wake_all( s ); return 0; }
int sem_getvalue( sem_t *s, int *v ) { if( on() ) acc( s, 4, false, PC ); *v = (int) ( (Sm *) s )->n; return 0; }
int sem_trywait( sem_t *s )
{
    if( ! on() ) return 0;
    accf( s, 4, PC );
    if( ! ( (Sm *) s )->n ) { errno = EAGAIN; return -1; }
    ( (Sm *) s )->n--;
    return 0;
}
int sem_wait( sem_t *s )
{
    if( ! on() ) return 0;
    accf( s, 4, PC );
    while( ! ( (Sm *) s )->n ) block_on( s );
    ( (Sm *) s )->n--;
    return 0;
}
int sem_clockwait( sem_t *s, clockid_t k, const struct timespec *t )
{
    if( ! on() ) return 0;
    accf( s, 4, PC );
    sync_time();
    const uint64_t until = abs_ns( k, t );
    while( ! ( (Sm *) s )->n ) {
        if( vnow >= until || ! block_on_until( s, until ) ) { if( ! ( (Sm *) s )->n ) { errno = ETIMEDOUT; return -1; } break; }
        sync_time();
    }
    ( (Sm *) s )->n--;
    return 0;
}
int sem_timedwait( sem_t *s, const struct timespec *t ) { return sem_clockwait( s, CLOCK_REALTIME, t ); }
struct Br { unsigned n, in, gen; };
static_assert( sizeof( Br ) <= sizeof( pthread_barrier_t ), "" );
int pthread_barrier_init( pthread_barrier_t *b, const pthread_barrierattr_t *, unsigned n ) { memset( b, 0, sizeof *b ); ( (Br *) b )->n = n; return 0; }
int pthread_barrier_destroy( pthread_barrier_t * ) { return 0; }
int pthread_barrier_wait( pthread_barrier_t *bb )
{
    Br *b = (Br *) bb;
    if( ! on() ) return 0;
    accf( b, 12, PC );
    if( ++b->in == b->n ) { b->in = 0; b->gen++; wake_all( b ); return PTHREAD_BARRIER_SERIAL_THREAD; }
    const unsigned g = b->gen;
    while( b->gen == g ) block_on( b );
    return 0;
}
static struct { bool used; void (*d)( void * ); } keys[ NKEY ];
int pthread_key_create( pthread_key_t *k, void (*d)( void * ) )
{
    for( unsigned i = 0; i < NKEY; i++ ) if( ! keys[ i ].used ) {
        keys[ i ].used = true;
        keys[ i ].d = d;
        *k = i;
        if( insim ) for( int j = 0; j < MAXF; j++ ) G->f[ j ].key[ i ] = nullptr;
        return 0;
    }
    return EAGAIN;
}
int pthread_key_delete( pthread_key_t k ) { if( k >= NKEY ) return EINVAL; keys[ k ].used = false; return 0; }
static void *outside[ NKEY ];
void *pthread_getspecific( pthread_key_t k ) { return k >= NKEY ? nullptr : insim ? G->f[ cur ].key[ k ] : outside[ k ]; }
int pthread_setspecific( pthread_key_t k, const void *v )
{
    if( k >= NKEY ) return EINVAL;
    ( insim ? G->f[ cur ].key : outside )[ k ] = const_cast< void * >( v );
    return 0;
}
void key_dtors()
{
    for( int round = 0; round < 4; round++ ) {
        bool any = false;
        for( unsigned i = 0; i < NKEY; i++ ) {
            void *v = G->f[ cur ].key[ i ];
            if( ! v || ! keys[ i ].used || ! keys[ i ].d ) continue;
            G->f[ cur ].key[ i ] = nullptr;
            any = true;
            keys[ i ].d( v );
        }
        if( ! any ) return;
    }
}
static long raw_syscall( long n, long a, long b, long c, long d, long e, long f )
{
    long r;
    register long r10 __asm__( "r10" ) = d, r8 __asm__( "r8" ) = e, r9 __asm__( "r9" ) = f;
    __asm__ volatile( "syscall" : "=a"( r ) : "a"( n ), "D"( a ), "S"( b ), "d"( c ), "r"( r10 ), "r"( r8 ), "r"( r9 ) : "rcx", "r11", "memory" );
    if( r < 0 && r > -4096 ) { errno = (int) -r; return -1; }
    return r;
}
long syscall( long n, ... ) noexcept
{
    va_list ap;
    va_start( ap, n );
    const long a = va_arg( ap, long ), b = va_arg( ap, long ), c = va_arg( ap, long ), d = va_arg( ap, long ), e = va_arg( ap, long ), f = va_arg( ap, long );
    va_end( ap );
    if( n == SYS_futex && on() ) {
        const void *at = (const void *) a;
        const int op = (int) ( b & FUTEX_CMD_MASK );
        accf( at, 4, PC );
        if( op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET ) { if( (int) c == 1 ) wake_one( at ); else wake_all( at ); return 1; }
        if( op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET ) {
            if( *(const volatile int *) at != (int) c ) { errno = EAGAIN; return -1; }
            const struct timespec *t = (const struct timespec *) d;
            if( ! t ) { block_on( at ); return 0; }
            sync_time();
            const uint64_t until = op == FUTEX_WAIT ? vnow + to_ns( t ) : abs_ns( b & FUTEX_CLOCK_REALTIME ? CLOCK_REALTIME : CLOCK_MONOTONIC, t );
            if( vnow >= until || ! block_on_until( at, until ) ) { errno = ETIMEDOUT; return -1; }
            return 0;
        }
    }
    return raw_syscall( n, a, b, c, d, e, f );
}
int sched_yield() { if( on() ) voluntary(); return 0; }

/* one-time initialisation of function-local statics */
int sim_guard_acquire( uint64_t *g ) asm( "__cxa_guard_acquire" );
int sim_guard_acquire( uint64_t *g )
{
    fence();
    volatile unsigned char *b = (volatile unsigned char *) g;
    for( ;; ) {
        if( b[ 0 ] ) return 0;
        if( ! b[ 1 ] ) break;
        if( ! insim ) _exit( 96 );
        block_on( (void *) g );
    }
    b[ 1 ] = 1;
    return 1;
}
void sim_guard_release( uint64_t *g ) asm( "__cxa_guard_release" );
void sim_guard_release( uint64_t *g )
{
    fence();
    volatile unsigned char *b = (volatile unsigned char *) g;
    b[ 0 ] = 1;
    b[ 1 ] = 0;
    if( insim ) wake_all( (void *) g );
}
void sim_guard_abort( uint64_t *g ) asm( "__cxa_guard_abort" );
void sim_guard_abort( uint64_t *g )
{
    fence();
    ( (volatile unsigned char *) g )[ 1 ] = 0;
    if( insim ) wake_all( (void *) g );
}
int __cxa_thread_atexit( void (*f)( void * ), void *o, void * )
{
    if( insim ) { Fiber &x = G->f[ cur ]; if( x.ndtor < 8 ) { x.dtor[ x.ndtor ].f = f; x.dtor[ x.ndtor++ ].o = o; } }
    return 0;
}

/* --------------------------------------------------------------------- time */
static int do_sleep( uint64_t ns, struct timespec *rem )
{
    uint64_t v;
    sync_time();
    if( ns > 1 && fault( F_EINTR, 0, ns - 1, v ) ) {
        sleep_until( vnow + v );
        if( rem ) { rem->tv_sec = ( ns - v ) / 1000000000ull; rem->tv_nsec = ( ns - v ) % 1000000000ull; }
        errno = EINTR;
        return -1;
    }
    if( fault( F_OVERSLEEP, 1000, 50000000, v ) ) ns += v;
    sleep_until( vnow + ns );
    return 0;
}
int nanosleep( const struct timespec *t, struct timespec *rem )
{
    if( ! on() ) return 0;
    return do_sleep( to_ns( t ), rem );
}
int clock_nanosleep( clockid_t k, int fl, const struct timespec *t, struct timespec *rem )
{
    if( ! on() ) return 0;
    uint64_t n = to_ns( t );
    if( fl & TIMER_ABSTIME ) { sync_time(); n = abs_ns( k, t ); n = n > vnow ? n - vnow : 0; }
    return do_sleep( n, fl & TIMER_ABSTIME ? nullptr : rem ) ? EINTR : 0;
}
int usleep( useconds_t us ) { if( ! on() ) return 0; return do_sleep( (uint64_t) us * 1000, nullptr ); }
unsigned sleep( unsigned s )
{
    if( ! on() ) return 0;
    struct timespec r{ 0, 0 };
    if( do_sleep( (uint64_t) s * 1000000000ull, &r ) ) return (unsigned) r.tv_sec + 1;
    return 0;
}
int clock_gettime( clockid_t k, struct timespec *t )
{
    if( ! insim ) {
        static int (*real)( clockid_t, struct timespec * ) = (int (*)( clockid_t, struct timespec * )) dlsym( RTLD_NEXT, "clock_gettime" );
        return real( k, t );
    }
    sync_time();
    vnow += 20;
    uint64_t v = vnow + ( k == CLOCK_REALTIME || k == CLOCK_REALTIME_COARSE ? WALL0 + wallskew : 1000000000ull );
    t->tv_sec  = v / 1000000000ull;
    t->tv_nsec = v % 1000000000ull;
    return 0;
}
int gettimeofday( struct timeval *tv, void * )
{
    struct timespec t;
    clock_gettime( CLOCK_REALTIME, &t );
    tv->tv_sec  = t.tv_sec;
    tv->tv_usec = t.tv_nsec / 1000;
    return 0;
}
time_t time( time_t *o )
{
    struct timespec t;
    clock_gettime( CLOCK_REALTIME, &t );
    if( o ) *o = t.tv_sec;
    return t.tv_sec;
}
int get_nprocs() { return 8; }

/* ------------------------------------------------------------------ endings */
void __assert_fail( const char *e, const char *f, unsigned l, const char * )
{
    const char *b = strrchr( f, '/' );
    (void) l;
    char m[ 256 ];
    snprintf( m, sizeof m, "%s: %s", b ? b + 1 : f, e );
    if( ! R ) { fprintf( stderr, "%s\n", m ); _exit( 99 ); }
    abnormal( "assert", m );
    __builtin_unreachable();
}
void abort()
{
    if( ! R || ! insim ) { static const char m[] = "simrt: abort outside a run\n"; (void) ! write( 2, m, sizeof m - 1 ); _exit( 99 ); }
    abnormal( "abort", "abort() called" );
    __builtin_unreachable();
}
void exit( int c )
{
    if( ! R || ! insim ) { fflush( nullptr ); _exit( c ); }
    char b[ 32 ];
    snprintf( b, sizeof b, "exit(%d) called", c );
    abnormal( "exit", b );
    __builtin_unreachable();
}
void quick_exit( int c ) { exit( c ); }

/* ------------------------------------------------------------ simulated files */
static int vfind( const char *p )
{
    for( int i = 0; i < G->nfile; i++ ) if( ! strcmp( G->file[ i ].path, p ) ) return i;
    return -1;
}
static bool is_sim( const char *p ) { return insim && ! strncmp( p, "/sim/", 5 ); }
static VHandle *vh( FILE *f )
{
    if( ! insim ) return nullptr;
    const uintptr_t a = (uintptr_t) f, b = (uintptr_t) G->fh;
    if( a < b || a >= b + sizeof G->fh ) return nullptr;
    VHandle *h = (VHandle *) f;
    if( ! h->open ) fail( "use-after-close", "operation on a closed file" );
    return h;
}
/* one file the application may write: fopen for writing of any /sim/ path */
static int out_fd = -1, out_cur = -1;
static FILE *open_out( const char *md )
{
    uint64_t v;
    if( fault( F_IOOPEN, 1, 1, v ) ) { errno = EACCES; return nullptr; }
    static FILE *(*real)( int, const char * ) = (FILE * (*)( int, const char * )) dlsym( RTLD_NEXT, "fdopen" );
    if( out_fd < 0 ) out_fd = memfd_create( "out", 0 );
    if( *md == 'w' && ftruncate( out_fd, 0 ) ) return nullptr;
    if( *md == 'w' ) lseek( out_fd, 0, SEEK_SET );
    out_cur = dup( out_fd );
    return real( out_cur, md );
}
ssize_t write( int fd, const void *d, size_t n )
{
    uint64_t v;
    if( insim && fd >= 0 && fd == out_cur ) {
        if( fault( F_IOERR, 1, 1, v ) ) { errno = ENOSPC; return -1; }
        if( n > 1 && fault( F_IOSHORT, 1, n - 1, v ) ) n = v;
    }
    return syscall( SYS_write, fd, d, n );
}
ssize_t writev( int fd, const struct iovec *io, int k )
{
    if( ! insim || fd < 0 || fd != out_cur ) return syscall( SYS_writev, fd, io, k );
    ssize_t all = 0;
    for( int i = 0; i < k; i++ ) {
        const ssize_t r = write( fd, io[ i ].iov_base, io[ i ].iov_len );
        if( r < 0 ) return all ? all : r;
        all += r;
        if( (size_t) r < io[ i ].iov_len ) break;
    }
    return all;
}
FILE *fopen( const char *p, const char *md )
{
    if( is_sim( p ) && *md != 'r' ) return open_out( md );
    if( ! is_sim( p ) ) {
        static FILE *(*real)( const char *, const char * ) = (FILE * (*)( const char *, const char * )) dlsym( RTLD_NEXT, "fopen" );
        return real( p, md );
    }
    uint64_t v;
    const int i = vfind( p );
    if( i < 0 ) { errno = ENOENT; return nullptr; }
    if( fault( F_IOOPEN, 1, 1, v ) ) { errno = EMFILE; return nullptr; }
    for( auto &h : G->fh ) if( ! h.open ) { h = VHandle{ true, i, 0, false, false }; return (FILE *) &h; }
    errno = EMFILE;
    return nullptr;
}
FILE *fopen64( const char *p, const char *m ) { return fopen( p, m ); }
int fclose( FILE *f )
{
    VHandle *h = vh( f );
    if( ! h ) {
        static int (*real)( FILE * ) = (int (*)( FILE * )) dlsym( RTLD_NEXT, "fclose" );
        if( insim && out_cur >= 0 && fileno( f ) == out_cur ) out_cur = -1;
        return real( f );
    }
    h->open = false;
    return 0;
}
size_t fread( void *d, size_t sz, size_t n, FILE *f )
{
    VHandle *h = vh( f );
    if( ! h ) {
        static size_t (*real)( void *, size_t, size_t, FILE * ) = (size_t (*)( void *, size_t, size_t, FILE * )) dlsym( RTLD_NEXT, "fread" );
        return real( d, sz, n, f );
    }
    if( ! sz || ! n ) return 0;
    const VFile &x = G->file[ h->file ];
    size_t want = sz * n, have = h->pos < x.n ? x.n - h->pos : 0;
    uint64_t v;
    if( fault( F_IOERR, 1, 1, v ) ) { h->err = true; errno = EIO; return 0; }
    /* stdio reads short only at end of file or on an error part of the way */
    if( want > 1 && have > 1 && fault( F_IOSHORT, 0, ( want < have ? want : have ) - 1, v ) ) {
        want = v;
        h->err = true;
        errno = EIO;
    } else if( want > have ) { want = have; h->eof = true; }
    check( (uintptr_t) d, want, true, PC );
    memcpy( d, x.data + h->pos, want );
    h->pos += want;
    return want / sz;
}
size_t fread_unlocked( void *d, size_t s, size_t n, FILE *f ) { return fread( d, s, n, f ); }
int fseek( FILE *f, long off, int wh )
{
    VHandle *h = vh( f );
    if( ! h ) { static int (*real)( FILE *, long, int ) = (int (*)( FILE *, long, int )) dlsym( RTLD_NEXT, "fseek" ); return real( f, off, wh ); }
    uint64_t v;
    if( fault( F_IOSEEK, 1, 1, v ) ) { errno = EIO; return -1; }
    const long b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (long) h->pos : (long) G->file[ h->file ].n;
    if( b + off < 0 ) { errno = EINVAL; return -1; }
    h->pos = (size_t) ( b + off );
    h->eof = false;
    return 0;
}
int fseeko( FILE *f, off_t o, int w ) { return fseek( f, o, w ); }
int fseeko64( FILE *f, off64_t o, int w ) { return fseek( f, o, w ); }
long ftell( FILE *f )
{
    VHandle *h = vh( f );
    if( ! h ) { static long (*real)( FILE * ) = (long (*)( FILE * )) dlsym( RTLD_NEXT, "ftell" ); return real( f ); }
    return (long) h->pos;
}
off_t ftello( FILE *f ) { return ftell( f ); }
off64_t ftello64( FILE *f ) { return ftell( f ); }
void rewind( FILE *f )
{
    VHandle *h = vh( f );
    if( ! h ) { static void (*real)( FILE * ) = (void (*)( FILE * )) dlsym( RTLD_NEXT, "rewind" ); real( f ); return; }
    h->pos = 0;
    h->eof = h->err = false;
}
int fgetc( FILE *f )
{
    VHandle *h = vh( f );
    if( ! h ) { static int (*real)( FILE * ) = (int (*)( FILE * )) dlsym( RTLD_NEXT, "fgetc" ); return real( f ); }
    unsigned char c;
    return fread( &c, 1, 1, f ) == 1 ? c : EOF;
}
int getc( FILE *f ) { return fgetc( f ); }
int ungetc( int c, FILE *f )
{
    VHandle *h = vh( f );
    if( ! h ) { static int (*real)( int, FILE * ) = (int (*)( int, FILE * )) dlsym( RTLD_NEXT, "ungetc" ); return real( c, f ); }
    if( c == EOF || ! h->pos || (unsigned char) G->file[ h->file ].data[ h->pos - 1 ] != (unsigned char) c ) return EOF;
    h->pos--;
    h->eof = false;
    return c;
}
char *fgets( char *d, int n, FILE *f )
{
    VHandle *h = vh( f );
    if( ! h ) { static char *(*real)( char *, int, FILE * ) = (char *(*)( char *, int, FILE * )) dlsym( RTLD_NEXT, "fgets" ); return real( d, n, f ); }
    int k = 0;
    while( k < n - 1 ) {
        const int c = fgetc( f );
        if( c == EOF ) break;
        d[ k++ ] = (char) c;
        if( c == '\n' ) break;
    }
    if( ! k || h->err ) return nullptr;
    d[ k ] = 0;
    return d;
}
int fileno( FILE *f )
{
    VHandle *h = vh( f );
    if( ! h ) { static int (*real)( FILE * ) = (int (*)( FILE * )) dlsym( RTLD_NEXT, "fileno" ); return real( f ); }
    return 100000 + (int) ( h - G->fh );
}
int fstat( int fd, struct stat *st )
{
    if( ! insim || fd < 100000 ) return (int) raw_syscall( SYS_fstat, fd, (long) st, 0, 0, 0, 0 );
    uint64_t v;
    const VHandle *h = &G->fh[ fd - 100000 ];
    if( ! h->open ) { errno = EBADF; return -1; }
    if( fault( F_IOERR, 1, 1, v ) ) { errno = EIO; return -1; }
    memset( st, 0, sizeof *st );
    st->st_mode = S_IFREG | 0644;
    st->st_size = (off_t) G->file[ h->file ].n;
    st->st_blksize = 4096;
    return 0;
}
int fstat64( int fd, struct stat64 *st ) { return fstat( fd, (struct stat *) st ); }
/* the same files through descriptors */
static VHandle *vd( int fd )
{
    if( ! insim || fd < 100000 ) return nullptr;
    VHandle *h = &G->fh[ fd - 100000 ];
    if( ! h->open ) fail( "use-after-close", "operation on a closed file descriptor" );
    return h;
}
int open( const char *p, int fl, ... )
{
    va_list ap;
    va_start( ap, fl );
    const int md = va_arg( ap, int );
    va_end( ap );
    if( ! is_sim( p ) || ( fl & O_ACCMODE ) != O_RDONLY ) return (int) raw_syscall( SYS_openat, AT_FDCWD, (long) p, fl, md, 0, 0 );
    FILE *f = fopen( p, "r" );
    return f ? fileno( f ) : -1;
}
int open64( const char *p, int fl, ... )
{
    va_list ap;
    va_start( ap, fl );
    const int md = va_arg( ap, int );
    va_end( ap );
    return open( p, fl, md );
}
int close( int fd )
{
    VHandle *h = vd( fd );
    if( ! h ) return (int) raw_syscall( SYS_close, fd, 0, 0, 0, 0, 0 );
    h->open = false;
    return 0;
}
static ssize_t vread( VHandle *h, void *d, size_t want, size_t at )
{
    const VFile &x = G->file[ h->file ];
    const size_t have = at < x.n ? x.n - at : 0;
    uint64_t v;
    if( fault( F_IOERR, 1, 1, v ) ) { errno = EIO; return -1; }
    if( want > have ) want = have;
    if( want > 1 && fault( F_IOSHORT, 1, want - 1, v ) ) want = v;
    check( (uintptr_t) d, want, true, PC );
    memcpy( d, x.data + at, want );
    return (ssize_t) want;
}
ssize_t read( int fd, void *d, size_t n )
{
    VHandle *h = vd( fd );
    if( ! h ) return raw_syscall( SYS_read, fd, (long) d, (long) n, 0, 0, 0 );
    const ssize_t r = vread( h, d, n, h->pos );
    if( r > 0 ) h->pos += (size_t) r;
    return r;
}
ssize_t pread( int fd, void *d, size_t n, off_t at )
{
    VHandle *h = vd( fd );
    return h ? vread( h, d, n, (size_t) at ) : raw_syscall( SYS_pread64, fd, (long) d, (long) n, at, 0, 0 );
}
ssize_t pread64( int fd, void *d, size_t n, off64_t at ) { return pread( fd, d, n, at ); }
off_t lseek( int fd, off_t o, int w )
{
    VHandle *h = vd( fd );
    if( ! h ) return raw_syscall( SYS_lseek, fd, o, w, 0, 0, 0 );
    if( ! o && w == SEEK_CUR ) return (off_t) h->pos;
    return fseek( (FILE *) h, o, w ) ? -1 : (off_t) h->pos;
}
off64_t lseek64( int fd, off64_t o, int w ) { return lseek( fd, o, w ); }
int setvbuf( FILE *f, char *b, int m, size_t n )
{
    VHandle *h = vh( f );
    if( ! h ) { static int (*real)( FILE *, char *, int, size_t ) = (int (*)( FILE *, char *, int, size_t )) dlsym( RTLD_NEXT, "setvbuf" ); return real( f, b, m, n ); }
    return 0;
}
int feof( FILE *f )
{
    VHandle *h = vh( f );
    if( ! h ) { static int (*real)( FILE * ) = (int (*)( FILE * )) dlsym( RTLD_NEXT, "feof" ); return real( f ); }
    return h->eof;
}
int ferror( FILE *f )
{
    VHandle *h = vh( f );
    if( ! h ) { static int (*real)( FILE * ) = (int (*)( FILE * )) dlsym( RTLD_NEXT, "ferror" ); return real( f ); }
    return h->err;
}
void clearerr( FILE *f )
{
    VHandle *h = vh( f );
    if( ! h ) { static void (*real)( FILE * ) = (void (*)( FILE * )) dlsym( RTLD_NEXT, "clearerr" ); real( f ); return; }
    h->eof = h->err = false;
}
int stat( const char *p, struct stat *st )
{
    if( ! is_sim( p ) ) { static int (*real)( const char *, struct stat * ) = (int (*)( const char *, struct stat * )) dlsym( RTLD_NEXT, "stat" ); return real( p, st ); }
    uint64_t v;
    const int i = vfind( p );
    if( i < 0 ) { errno = ENOENT; return -1; }
    if( fault( F_IOOPEN, 1, 1, v ) ) { errno = EACCES; return -1; }
    memset( st, 0, sizeof *st );
    st->st_mode = S_IFREG | 0644;
    st->st_size = (off_t) G->file[ i ].n;
    st->st_blksize = 4096;
    return 0;
}
int stat64( const char *p, struct stat64 *st ) { return stat( p, (struct stat *) st ); }
int access( const char *p, int m )
{
    if( ! is_sim( p ) ) { static int (*real)( const char *, int ) = (int (*)( const char *, int )) dlsym( RTLD_NEXT, "access" ); return real( p, m ); }
    if( vfind( p ) < 0 ) { errno = ENOENT; return -1; }
    return 0;
}
} // extern "C"

namespace sim
{
void file_put( const char *path, const char *data, size_t n )
{
    HostScope hs;
    char *c = (char *) __libc_malloc( n + 1 );
    memcpy( c, data, n );
    VFile &f = G->file[ G->nfile++ ];
    snprintf( f.path, sizeof f.path, "%s", path );
    f.data = c;
    f.n = n;
}
long file_got( char *to, size_t max )
{
    if( out_fd < 0 ) return -1;
    const ssize_t n = pread( out_fd, to, max, 0 );
    return n;
}
int open_files() { int n = out_cur >= 0; for( auto &h : G->fh ) n += h.open; return n; }
uint64_t diag_bytes()
{
    HostScope hs;
    fflush( stdout );
    fflush( stderr );
    struct stat st;
    uint64_t n = 0;
    if( memfd_err >= 0 && ! fstat( memfd_err, &st ) ) n += st.st_size;
    if( memfd_out >= 0 && ! fstat( memfd_out, &st ) ) n += st.st_size;
    return n;
}
long Cfg::def( const char *nm, long v, long lowest )
{
    for( int i = 0; RS && i < RS->ncfg; i++ ) if( ! strcmp( RS->cfg[ i ].name, nm ) ) v = RS->cfg[ i ].val;
    for( int i = 0; i < n; i++ ) if( ! strcmp( name[ i ], nm ) ) { val[ i ] = v; return v; }
    if( n < MAXCFG ) { snprintf( name[ n ], sizeof name[ n ], "%s", nm ); val[ n ] = v; lo[ n ] = lowest; n++; }
    return v;
}
long Cfg::operator[]( const char *nm ) const
{
    for( int i = 0; i < n; i++ ) if( ! strcmp( name[ i ], nm ) ) return val[ i ];
    fail( "harness", "undefined configuration value %s", nm );
}
Scenario scen[ MAXSCEN ];
int nscen;
void add_scenario( const Scenario &s ) { if( nscen == MAXSCEN ) abort(); scen[ nscen++ ] = s; }

/* ---------------------------------------------------------------- one run */
static char altstk[ 65536 ];
static void on_sig( int s, siginfo_t *si, void *uc )
{
    (void) uc;
    active = -1000;
    if( s == SIGVTALRM || s == SIGXCPU ) {
        snprintf( R->detail, sizeof R->detail, "no memory access for seconds of processor time" );
        snprintf( R->cls, sizeof R->cls, "hang" );
    } else {
        snprintf( R->cls, sizeof R->cls, "crash" );
        const uintptr_t a = (uintptr_t) si->si_addr;
        const char *w = si->si_code == SI_KERNEL ? "a wild pointer" : a < 0x10000 ? "null page" : ( a >> 40 ) == ( STK_BASE >> 40 ) ? "thread stack" : ( a & 0xffff ) == 0xdddd ? "freed pointer" : "unmapped address";
        snprintf( R->detail, sizeof R->detail, "signal %d accessing %s", s, w );
    }
    R->status = ST_FAIL;
    R->thash = thash;
    R->steps = total;
    R->vtime = vnow;
    R->done = 1;
    _exit( 0 );
}
static void on_terminate()
{
    active = -1000;
    char b[ 300 ] = "terminate without exception";
    if( std::type_info *t = abi::__cxa_current_exception_type() ) {
        int st;
        char *n = abi::__cxa_demangle( t->name(), nullptr, nullptr, &st );
        snprintf( b, sizeof b, "uncaught %s", n ? n : t->name() );
        try { std::rethrow_exception( std::current_exception() ); }
        catch( const std::exception &e ) { const size_t l = strlen( b ); snprintf( b + l, sizeof b - l, ": %s", e.what() ); }
        catch( ... ) {}
    }
    abnormal( "terminate", b );
    _exit( 95 );
}
static int tls_cb( struct dl_phdr_info *i, size_t, void * )
{
    for( int k = 0; k < i->dlpi_phnum; k++ ) {
        const ElfW( Phdr ) &p = i->dlpi_phdr[ k ];
        if( p.p_type == PT_TLS ) {
            const size_t al = p.p_align ? p.p_align : 1;
            tls_size = p.p_memsz;
            uintptr_t tp;
            asm( "mov %%fs:0,%0" : "=r"( tp ) );
            tls_base = (unsigned char *) ( tp - ( ( p.p_memsz + al - 1 ) & ~( al - 1 ) ) );
            memset( tls_init, 0, sizeof tls_init );
            memcpy( tls_init, (void *) ( i->dlpi_addr + p.p_vaddr ), p.p_filesz );
        }
    }
    return 1;      /* first entry: the executable */
}
static Cfg runcfg;
static const Scenario *runscen;
static void *main_body( void * )
{
    runscen->run( runcfg );
    sync_time();
    finish( ST_OK, "ok", "completed" );
    return nullptr;
}
void child_run( const RunSpec &rs, Result *res )
{
    R  = res;
    RS = &rs;
    mode = rs.mode;
    if( mmap( (void *) G_BASE, sizeof( Glob ), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0 ) == MAP_FAILED ||
        mmap( (void *) AR_BASE, AR_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0 ) == MAP_FAILED ||
        mmap( (void *) SH_BASE, AR_SIZE / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0 ) == MAP_FAILED )
        _exit( 97 );
    __libc_single_threaded = 0;     /* the threads of a run are threads to the C++ library, too */
    dl_iterate_phdr( tls_cb, nullptr );
    if( tls_size > TLSMAX ) _exit( 94 );
    stack_t ss{};
    ss.ss_sp = altstk;
    ss.ss_size = sizeof altstk;
    sigaltstack( &ss, nullptr );
    struct sigaction sa{};
    sa.sa_sigaction = on_sig;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    for( int s : { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGVTALRM, SIGTRAP } ) sigaction( s, &sa, nullptr );
    struct itimerval it{};
    it.it_value.tv_sec = 20;
    setitimer( ITIMER_VIRTUAL, &it, nullptr );
    std::set_terminate( on_terminate );
    memfd_err = memfd_create( "err", 0 );
    memfd_out = memfd_create( "out", 0 );
    if( ! getenv( "SIM_STDERR" ) ) dup2( memfd_err, 2 );
    dup2( memfd_out, 1 );

    runscen = &scen[ rs.scen ];
    srng.seed( mix( rs.seed, 3 ) );
    frng.seed( mix( rs.seed, 4 ) );
    drng.seed( mix( rs.seed, 6 ) );
    Rng crng, p;
    crng.seed( mix( rs.seed, 1 ) );
    runcfg.n = 0;
    runscen->gen( crng, runcfg );
    res->ncfg = runcfg.n;
    for( int i = 0; i < runcfg.n; i++ ) { memcpy( res->cfg[ i ].name, runcfg.name[ i ], sizeof res->cfg[ i ].name ); res->cfg[ i ].val = runcfg.val[ i ]; res->cfg[ i ].lo = runcfg.lo[ i ]; }

    p.seed( mix( rs.seed, 2 ) );
    static const uint64_t costs[] = { 20, 100, 400 };
    cost = costs[ p.below( 3 ) ];
    static const int qs[] = { 0, 0, 64, -1 };
    quar = qs[ p.below( 4 ) ];
    static const unsigned char fills[] = { 0x00, 0xA5, 0xFF, 0x01 };
    fillpat = fills[ p.below( 4 ) ];
    int perm[ NSUB ] = { 0, 1, 2, 3 };
    for( int i = NSUB - 1; i > 0; i-- ) { const int j = (int) p.below( i + 1 ); const int t = perm[ i ]; perm[ i ] = perm[ j ]; perm[ j ] = t; }
    for( int i = 0; i < NSUB; i++ ) {
        G->subcur[ i ] = AR_BASE + AR_SIZE / NSUB * perm[ i ] + 64 + 16 * p.below( 64 );
        G->subend[ i ] = AR_BASE + AR_SIZE / NSUB * ( perm[ i ] + 1 ) - 64;
    }
    policy = (int) p.below( 8 );
    policy = policy < 4 ? 0 : policy < 6 ? 1 : 2;
    static const uint64_t qm[] = { 1, 2, 4, 8, 16, 32, 64, 128, 256, 1024 };
    qmean = qm[ p.below( 10 ) ];
    if( policy == 2 ) qmean = 32ull << p.below( 8 );
    horizon = 20000ull << p.below( 7 );
    cap_total = rs.steplimit;
    stall_p = 0;
    faults_on = 0;
    for( int k = 0; k < F_NKINDS; k++ ) {
        if( ! ( runscen->faults & FBIT( (Fault) k ) ) ) { p.next(); p.next(); continue; }
        /* each permitted kind is enabled in about half of the runs */
        const bool e = p.below( 2 ) || ( k >= F_ALLOC && ( runscen->faults >> F_ALLOC ) == ( 1u << ( k - F_ALLOC ) ) && p.below( 4 ) );
        static const uint64_t rates[] = { 2, 4, 16, 64, 256 };
        frate[ k ] = rates[ p.below( 5 ) ];
        if( e ) faults_on |= FBIT( (Fault) k );
    }
    if( mode == M_REPLAY ) faults_on = runscen->faults;
    tso = faults_on & FBIT( F_STORE );
    hold_p = 1 + p.below( 4 );
    if( faults_on & FBIT( F_STALL ) ) {
        static const uint64_t sp[] = { 8, 32, 128, 512 };
        stall_p = sp[ p.below( 4 ) ];
        stalls_left = 1 + (int) p.below( 20 );
    }
    {
        const uint64_t b = p.below( 12 );
        alloc_at = ( 1ull << b ) - 1 + p.below( 1ull << b );
        static const uint64_t ns[] = { 1, 1, 3, 1ull << 60 };
        alloc_n = ns[ p.below( 4 ) ];
    }
    faults_enabled = false;
    R->policy = policy;
    nf = 0;
    thash = 0xcbf29ce484222325ull;
    fiber_new( main_body, nullptr );
    insim = true;
    active = 1;
    cur = 0;
    lev = lev0 = 0;
    memcpy( tls_base, tls_init, tls_size );
    new_quantum();
    void *dummy;
    sim_switch_asm( &dummy, G->f[ 0 ].sp );
    _exit( 93 );
}
} // namespace sim

/* --------------------------------------------------- std::random_device, stubs */
namespace std
{
void random_device::_M_init( const std::string & ) {}
void random_device::_M_init_pretr1( const std::string & ) {}
void random_device::_M_init( const char *, size_t ) {}
void random_device::_M_fini() {}
random_device::result_type random_device::_M_getval() { return (unsigned) drng.next(); }
random_device::result_type random_device::_M_getval_pretr1() { return (unsigned) drng.next(); }
double random_device::_M_getentropy() const noexcept { return 32.0; }
}
namespace raft
{
void affinity::set( const std::size_t core )
{
    if( ! insim ) return;
    Fiber &f = G->f[ cur ];
    f.core = (long) core;
    f.npins++;
    if( G->npin < 1024 ) { Pin &p = G->pin[ G->npin++ ]; p.thread = cur; p.core = (long) core; p.seq = sim::seq(); }
    step( &G->f[ cur ].core, true );
}
std::string demangle( const char *name )
{
    int st = 0;
    char *n = abi::__cxa_demangle( name, nullptr, nullptr, &st );
    std::string r( n ? n : name );
    free( n );
    return r;
}
}
namespace sim { const char *prop() { return runscen ? runscen->prop : ""; } }
