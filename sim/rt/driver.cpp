/* driver.cpp - runs scenarios: seeded exploration, minimisation, replay. */
#include "simint.h"
#include <algorithm>
#include <atomic>
#include <cstdlib>
#include <cstring>
#include <map>
#include <sched.h>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <vector>
using namespace sim;
using std::string;
using std::vector;

static double mono()
{
    struct timespec t;
    clock_gettime( CLOCK_MONOTONIC, &t );
    return t.tv_sec + t.tv_nsec * 1e-9;
}
template < class T > static T *shared( size_t n = 1 )
{
    void *p = mmap( nullptr, sizeof( T ) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 );
    if( p == MAP_FAILED ) { perror( "mmap" ); _exit( 92 ); }
    return (T *) p;
}
static int nworkers = 8;

static pid_t launch( const RunSpec &rs, Result *r )
{
    memset( (void *) r, 0, sizeof *r );
    if( rs.rec ) { rs.rec->ndec = rs.rec->nfault = 0; rs.rec->overflow = 0; }
    const pid_t p = fork();
    if( p == 0 ) child_run( rs, r );
    if( p < 0 ) { perror( "fork" ); _exit( 91 ); }
    return p;
}
static void collect( Result *r, int st )
{
    if( r->done ) return;
    r->status = ST_FAIL;
    snprintf( r->cls, sizeof r->cls, "%s", WIFSIGNALED( st ) ? "killed" : "simerror" );
    snprintf( r->detail, sizeof r->detail, "run ended with wait status %x", st );
}
static void run_one( const RunSpec &rs, Result *r )
{
    const pid_t p = launch( rs, r );
    int st;
    waitpid( p, &st, 0 );
    collect( r, st );
}
/** run all, at most nworkers at a time; stop early once one satisfies ok **/
template < class F > static int first_of( const vector< RunSpec > &v, Result *res, F ok )
{
    std::map< pid_t, size_t > live;
    size_t next = 0;
    int best = -1;
    while( next < v.size() || ! live.empty() ) {
        while( next < v.size() && (int) live.size() < nworkers && best < 0 ) {
            live[ launch( v[ next ], &res[ next ] ) ] = next;
            next++;
        }
        if( live.empty() ) break;
        int st;
        const pid_t p = wait( &st );
        auto it = live.find( p );
        if( it == live.end() ) continue;
        const size_t i = it->second;
        live.erase( it );
        collect( &res[ i ], st );
        if( ok( res[ i ] ) && ( best < 0 || (int) i < best ) ) best = (int) i;
    }
    return best;
}

static string jstr( const char *s )
{
    string o = "\"";
    for( ; *s; s++ ) {
        if( *s == '"' || *s == '\\' ) { o += '\\'; o += *s; }
        else if( (unsigned char) *s < 32 || (unsigned char) *s > 126 ) { char b[ 8 ]; snprintf( b, sizeof b, "\\u%04x", (unsigned char) *s ); o += b; }
        else o += *s;
    }
    return o + "\"";
}
static int find_scen( const string &n )
{
    for( int i = 0; i < nscen; i++ ) if( n == scen[ i ].name ) return i;
    return -1;
}
static string opt( const vector< string > &a, const string &k, const string &d = "" )
{
    for( size_t i = 0; i + 1 < a.size(); i++ ) if( a[ i ] == k ) return a[ i + 1 ];
    return d;
}
static uint64_t hx( const string &s ) { return strtoull( s.c_str(), nullptr, 0 ); }

/* ---------------------------------------------------------------- explore */
struct Failure { uint64_t idx, seed; int scen; char cls[ 40 ]; char detail[ 400 ]; uint64_t thash; bool known; };
struct PerScen { uint64_t runs, steps, vtime, switches, maxsteps, completed; };
struct Shared
{
    std::atomic< uint64_t > next;
    std::atomic< uint64_t > stop_at;       /* do not start runs with this index or above */
    std::atomic< uint64_t > runs, steps, vtime, switches, contended, threads, abnormal, nontrivial, distinct, hdistinct, allocs;
    std::atomic< uint64_t > fired[ F_NKINDS ], with[ F_NKINDS ], opp[ F_NKINDS ], policy[ 3 ];
    std::atomic< int > nfail;
    std::atomic< int > lock;
    Failure fail[ 256 ];
    PerScen ps[ MAXSCEN ];
    int nprobe;
    struct { const char *name; uint64_t n, runs; } probe[ 512 ];
    int nsample;
    struct { uint64_t seed; int scen; Result r; } sample[ 6 ];
};
constexpr size_t HN = 1 << 22;
static bool insert( std::atomic< uint64_t > *t, uint64_t h )
{
    if( ! h ) h = 1;
    for( size_t i = h & ( HN - 1 ), n = 0; n < 64; i = ( i + 1 ) & ( HN - 1 ), n++ ) {
        uint64_t e = 0;
        if( t[ i ].load() == h ) return false;
        if( t[ i ].compare_exchange_strong( e, h ) ) return true;
        if( e == h ) return false;
    }
    return false;
}
struct Known { string scen, cls, det; };
static vector< Known > known;
static void load_known( const string &file )
{
    if( file.empty() ) return;
    FILE *f = fopen( file.c_str(), "r" );
    if( ! f ) return;
    char b[ 1024 ];
    while( fgets( b, sizeof b, f ) ) {
        string s = b;
        while( ! s.empty() && ( s.back() == '\n' ) ) s.pop_back();
        vector< string > p;
        size_t q = 0, e;
        while( ( e = s.find( '\t', q ) ) != string::npos ) { p.push_back( s.substr( q, e - q ) ); q = e + 1; }
        p.push_back( s.substr( q ) );
        if( p.size() >= 3 ) known.push_back( { p[ 0 ], p[ 1 ], p[ 2 ] } );
    }
    fclose( f );
}
static bool is_known( int sc, const char *cls, const char *det )
{
    for( auto &k : known )
        if( k.scen == scen[ sc ].name && k.cls == cls && strstr( det, k.det.c_str() ) ) return true;
    return false;
}
static int explore( const vector< string > &a )
{
    const string prop = opt( a, "--prop" ), only = opt( a, "--scen" );
    const uint64_t seed = hx( opt( a, "--seed", "1" ) );
    const double secs = atof( opt( a, "--secs", "10" ).c_str() );
    const uint64_t maxruns = hx( opt( a, "--runs", "0xffffffffff" ) );
    const bool all = opt( a, "--all", "0" ) == "1";
    load_known( opt( a, "--known" ) );
    vector< int > sc;
    vector< int > wsum;
    int tot = 0;
    for( int i = 0; i < nscen; i++ )
        if( ( prop.empty() || prop == scen[ i ].prop ) && ( only.empty() || only == scen[ i ].name ) ) {
            sc.push_back( i );
            tot += scen[ i ].weight;
            wsum.push_back( tot );
        }
    if( sc.empty() ) { fprintf( stderr, "no scenario\n" ); return 2; }
    Shared *S = shared< Shared >();
    auto *th = shared< std::atomic< uint64_t > >( HN ), *hh = shared< std::atomic< uint64_t > >( HN );
    S->stop_at = maxruns;
    const double t0 = mono();
    vector< pid_t > w;
    for( int k = 0; k < nworkers; k++ ) {
        const pid_t p = fork();
        if( p ) { w.push_back( p ); continue; }
        Result *r = shared< Result >();
        for( ;; ) {
            if( mono() - t0 > secs ) S->stop_at = std::min< uint64_t >( S->stop_at, S->next );
            const uint64_t i = S->next.fetch_add( 1 );
            if( i >= S->stop_at ) break;
            RunSpec rs;
            rs.seed = mix( seed, i );
            Rng pr;
            pr.seed( mix( rs.seed, 7 ) );
            const int x = (int) pr.below( tot );
            size_t j = 0;
            while( wsum[ j ] <= x ) j++;
            rs.scen = sc[ j ];
            run_one( rs, r );
            S->runs++;
            S->steps += r->steps;
            S->vtime += r->vtime;
            S->switches += r->switches;
            S->contended += r->contended;
            S->threads += r->threads;
            S->allocs += r->allocs;
            S->abnormal += r->abnormal;
            if( r->policy >= 0 && r->policy < 3 ) S->policy[ r->policy ]++;
            for( int f = 0; f < F_NKINDS; f++ ) {
                S->fired[ f ] += r->fired[ f ];
                S->opp[ f ] += r->opp[ f ];
                if( r->fired[ f ] ) S->with[ f ]++;
            }
            if( r->threads > 1 && r->switches >= 8 ) {
                S->nontrivial++;
                if( insert( th, r->thash ) ) S->distinct++;
            }
            if( insert( hh, r->hhash * 31 + rs.scen ) ) S->hdistinct++;
            while( S->lock.exchange( 1 ) ) sched_yield();
            PerScen &q = S->ps[ rs.scen ];
            q.runs++;
            q.steps += r->steps;
            q.vtime += r->vtime;
            q.switches += r->switches;
            if( r->status == ST_OK && ! r->abnormal ) q.completed++;
            if( r->steps > q.maxsteps ) q.maxsteps = r->steps;
            for( int n = 0; n < r->nprobe; n++ ) {
                int m = 0;
                while( m < S->nprobe && S->probe[ m ].name != r->probe[ n ].name ) m++;
                if( m == S->nprobe && m < 512 ) S->probe[ S->nprobe++ ].name = r->probe[ n ].name;
                if( m < 512 ) { S->probe[ m ].n += r->probe[ n ].n; S->probe[ m ].runs++; }
            }
            if( S->nsample < 6 && r->status == ST_OK && ( i % 7 == 3 || i < 2 ) ) {
                auto &s = S->sample[ S->nsample++ ];
                s.seed = rs.seed;
                s.scen = rs.scen;
                s.r = *r;
            }
            if( r->status != ST_OK ) {
                const int n = S->nfail;
                const bool kn = is_known( rs.scen, r->cls, r->detail );
                if( n < 256 ) {
                    Failure &f = S->fail[ n ];
                    f.idx = i;
                    f.seed = rs.seed;
                    f.scen = rs.scen;
                    f.thash = r->thash;
                    f.known = kn;
                    memcpy( f.cls, r->cls, sizeof f.cls );
                    memcpy( f.detail, r->detail, sizeof f.detail );
                    S->nfail++;
                }
                if( ! kn && ! all ) S->stop_at = std::min< uint64_t >( S->stop_at, i );
            }
            S->lock = 0;
        }
        _exit( 0 );
    }
    for( pid_t p : w ) { int st; waitpid( p, &st, 0 ); }
    const double dt = mono() - t0;
    printf( "{\"wall_s\":%.3f,\"workers\":%d,\"runs\":%lu,\"steps\":%lu,\"sim_time_s\":%.6f,\"switches\":%lu,\"contended\":%lu,"
            "\"threads\":%lu,\"allocations\":%lu,\"abnormal_ok\":%lu,\"nontrivial\":%lu,\"distinct\":%lu,\"distinct_histories\":%lu,",
            dt, nworkers, S->runs.load(), S->steps.load(), S->vtime.load() * 1e-9, S->switches.load(), S->contended.load(),
            S->threads.load(), S->allocs.load(), S->abnormal.load(), S->nontrivial.load(), S->distinct.load(), S->hdistinct.load() );
    printf( "\"policy\":{\"random\":%lu,\"weighted\":%lu,\"priority\":%lu},\"faults\":{", S->policy[ 0 ].load(), S->policy[ 1 ].load(), S->policy[ 2 ].load() );
    unsigned allowed = 0;
    for( int s : sc ) allowed |= scen[ s ].faults;
    bool c = false;
    for( int f = 0; f < F_NKINDS; f++ )
        if( allowed & FBIT( (Fault) f ) ) {
            printf( "%s\"%s\":{\"fired\":%lu,\"runs\":%lu}", c ? "," : "", fault_name[ f ], S->fired[ f ].load(), S->with[ f ].load() );
            c = true;
        }
    printf( "},\"scenarios\":{" );
    for( size_t j = 0; j < sc.size(); j++ ) {
        PerScen &q = S->ps[ sc[ j ] ];
        printf( "%s%s:{\"runs\":%lu,\"completed\":%lu,\"steps\":%lu,\"max_steps\":%lu,\"switches\":%lu,\"sim_time_s\":%.6f}", j ? "," : "", jstr( scen[ sc[ j ] ].name ).c_str(),
                q.runs, q.completed, q.steps, q.maxsteps, q.switches, q.vtime * 1e-9 );
    }
    printf( "},\"probes\":{" );
    for( int n = 0; n < S->nprobe; n++ )
        printf( "%s%s:{\"count\":%lu,\"runs\":%lu}", n ? "," : "", jstr( S->probe[ n ].name ).c_str(), S->probe[ n ].n, S->probe[ n ].runs );
    printf( "},\"samples\":[" );
    for( int n = 0; n < S->nsample; n++ ) {
        auto &s = S->sample[ n ];
        printf( "%s{\"scenario\":%s,\"run_seed\":\"0x%lx\",\"workload\":{", n ? "," : "", jstr( scen[ s.scen ].name ).c_str(), s.seed );
        for( int i = 0; i < s.r.ncfg; i++ ) printf( "%s%s:%ld", i ? "," : "", jstr( s.r.cfg[ i ].name ).c_str(), s.r.cfg[ i ].val );
        printf( "},\"policy\":%d,\"accesses\":%lu,\"switches\":%lu,\"threads\":%d,\"sim_ns\":%lu,\"trace_hash\":\"0x%lx\",\"outcome\":%s}",
                s.r.policy, s.r.steps, s.r.switches, s.r.threads, s.r.vtime, s.r.thash, jstr( s.r.detail ).c_str() );
    }
    printf( "],\"failures\":[" );
    std::sort( S->fail, S->fail + S->nfail, []( const Failure &x, const Failure &y ) { return x.idx < y.idx; } );
    for( int n = 0; n < S->nfail; n++ ) {
        Failure &f = S->fail[ n ];
        printf( "%s{\"index\":%lu,\"scenario\":%s,\"run_seed\":\"0x%lx\",\"class\":%s,\"detail\":%s,\"trace_hash\":\"0x%lx\",\"known\":%s}", n ? "," : "", f.idx,
                jstr( scen[ f.scen ].name ).c_str(), f.seed, jstr( f.cls ).c_str(), jstr( f.detail ).c_str(), f.thash, f.known ? "true" : "false" );
    }
    printf( "]}\n" );
    return 0;
}

/* ------------------------------------------------------------ replay files */
struct Case
{
    string scn, cls, detail;
    uint64_t seed = 0, thash = 0;
    bool trace = false;
    vector< std::pair< string, long > > cfg;
    vector< Decision > dec;
    vector< FaultRec > fault;
};
static void sort_dec( vector< Decision > &d )
{
    std::sort( d.begin(), d.end(), []( const Decision &a, const Decision &b ) {
        if( a.type != b.type ) return a.type < b.type;
        if( a.fiber != b.fiber ) return a.fiber < b.fiber;
        return a.lev < b.lev;
    } );
}
static void fill( RunSpec &rs, const Case &c )
{
    rs.scen = find_scen( c.scn );
    rs.seed = c.seed;
    rs.ncfg = 0;
    for( auto &p : c.cfg ) { snprintf( rs.cfg[ rs.ncfg ].name, sizeof rs.cfg[ 0 ].name, "%s", p.first.c_str() ); rs.cfg[ rs.ncfg++ ].val = p.second; }
    if( c.trace ) {
        rs.mode = M_REPLAY;
        rs.dec = c.dec.data();
        rs.ndec = c.dec.size();
        rs.fault = c.fault.data();
        rs.nfault = c.fault.size();
    }
}
static void write_case( const string &file, const Case &c )
{
    FILE *f = fopen( file.c_str(), "w" );
    if( ! f ) { perror( file.c_str() ); _exit( 90 ); }
    const int sc = find_scen( c.scn );
    fprintf( f, "raftsim-replay 1\nproperty %s\nscenario %s\nseed 0x%lx\nmode %s\n", scen[ sc ].prop, c.scn.c_str(), c.seed, c.trace ? "trace" : "seed" );
    for( auto &p : c.cfg ) fprintf( f, "cfg %s %ld\n", p.first.c_str(), p.second );
    for( auto &x : c.fault ) fprintf( f, "fault %s %lu %lu\n", fault_name[ x.kind ], x.idx, x.val );
    for( auto &d : c.dec ) {
        fprintf( f, "%s thread %u at %lu run %u", d.type == 'P' ? "preempt" : "switch", d.fiber, d.lev, d.target );
        if( d.stallwho >= 0 ) fprintf( f, " stall %d for %lu", d.stallwho, d.dur );
        if( d.held ) fprintf( f, " hold %d stores for %d switches", d.held & 15, d.held >> 4 );
        fprintf( f, "\n" );
    }
    fprintf( f, "expect %s\ndetail %s\nhash 0x%lx\n", c.cls.c_str(), c.detail.c_str(), c.thash );
    fclose( f );
}
static bool read_case( const string &file, Case &c )
{
    FILE *f = fopen( file.c_str(), "r" );
    if( ! f ) return false;
    char b[ 2048 ], s[ 1024 ];
    bool ok = false;
    while( fgets( b, sizeof b, f ) ) {
        unsigned long u, v;
        unsigned fi, ta;
        long l;
        int who;
        b[ strcspn( b, "\n" ) ] = 0;
        if( ! strncmp( b, "raftsim-replay", 14 ) ) ok = true;
        else if( sscanf( b, "scenario %1023s", s ) == 1 ) c.scn = s;
        else if( sscanf( b, "seed %lx", &u ) == 1 ) c.seed = u;
        else if( sscanf( b, "mode %1023s", s ) == 1 ) c.trace = ! strcmp( s, "trace" );
        else if( sscanf( b, "cfg %1023s %ld", s, &l ) == 2 ) c.cfg.push_back( { s, l } );
        else if( sscanf( b, "fault %1023s %lu %lu", s, &u, &v ) == 3 ) {
            for( int k = 0; k < F_NKINDS; k++ ) if( ! strcmp( s, fault_name[ k ] ) ) c.fault.push_back( FaultRec{ (uint32_t) k, 0, u, v } );
        } else if( sscanf( b, "preempt thread %u at %lu run %u", &fi, &u, &ta ) == 3 || sscanf( b, "switch thread %u at %lu run %u", &fi, &u, &ta ) == 3 ) {
            Decision d{};
            d.type = b[ 0 ] == 'p' ? 'P' : 'V';
            d.fiber = (uint16_t) fi;
            d.lev = u;
            d.target = (uint16_t) ta;
            d.stallwho = -1;
            if( const char *q = strstr( b, " stall " ) ) if( sscanf( q, " stall %d for %lu", &who, &v ) == 2 ) { d.stallwho = (int16_t) who; d.dur = v; }
            int hn, hs;
            if( const char *q = strstr( b, " hold " ) ) if( sscanf( q, " hold %d stores for %d", &hn, &hs ) == 2 ) d.held = (uint8_t) ( ( hn & 15 ) | hs << 4 );
            c.dec.push_back( d );
        } else if( ! strncmp( b, "expect ", 7 ) ) c.cls = b + 7;
        else if( ! strncmp( b, "detail ", 7 ) ) c.detail = b + 7;
        else if( sscanf( b, "hash %lx", &u ) == 1 ) c.thash = u;
    }
    fclose( f );
    sort_dec( c.dec );
    return ok && find_scen( c.scn ) >= 0;
}
static int replay( const vector< string > &a )
{
    Case c;
    if( ! read_case( opt( a, "--file" ), c ) ) { fprintf( stderr, "cannot read replay file\n" ); return 2; }
    RunSpec rs;
    fill( rs, c );
    Result *r = shared< Result >();
    run_one( rs, r );
    const bool same = r->status == ST_FAIL && c.cls == r->cls;
    printf( "{\"reproduced\":%s,\"exact\":%s,\"class\":%s,\"detail\":%s,\"trace_hash\":\"0x%lx\",\"accesses\":%lu}\n", same ? "true" : "false",
            same && r->thash == c.thash ? "true" : "false", jstr( r->cls ).c_str(), jstr( r->detail ).c_str(), r->thash, r->steps );
    return same ? 1 : 0;
}
static int shrink( const vector< string > &a )
{
    Case c;
    c.scn = opt( a, "--scen" );
    c.seed = hx( opt( a, "--run" ) );
    const double budget = atof( opt( a, "--secs", "40" ).c_str() );
    const string out = opt( a, "--out" );
    const double t0 = mono();
    if( find_scen( c.scn ) < 0 ) return 2;
    Result *r = shared< Result >();
    Result *rv = shared< Result >( 256 );
    RunSpec rs;
    fill( rs, c );
    run_one( rs, r );
    if( r->status != ST_FAIL ) { printf( "{\"error\":\"the failing run did not fail when repeated\"}\n" ); return 3; }
    c.cls = r->cls;
    c.detail = r->detail;
    c.thash = r->thash;
    const double runlen = mono() - t0;
    run_one( rs, r );
    if( r->status != ST_FAIL || r->thash != c.thash || c.cls != r->cls ) { printf( "{\"error\":\"two executions of one seed differ\"}\n" ); return 3; }
    for( int i = 0; i < r->ncfg; i++ ) c.cfg.push_back( { r->cfg[ i ].name, r->cfg[ i ].val } );
    vector< long > lo;
    for( int i = 0; i < r->ncfg; i++ ) lo.push_back( r->cfg[ i ].lo );
    const uint64_t steps0 = r->steps;
    const long cfg_n = (long) c.cfg.size();
    auto same = [&]( const Result &x ) { return x.status == ST_FAIL && c.cls == x.cls; };
    /* 1. smaller workloads, with fresh schedules */
    int tries = 0;
    bool progress = true;
    while( progress && mono() - t0 < budget * 0.4 ) {
        progress = false;
        for( long i = 0; i < cfg_n && mono() - t0 < budget * 0.4; i++ ) {
            const long v = c.cfg[ i ].second, l = lo[ i ];
            if( v <= l ) continue;
            vector< long > cand{ l };
            if( ( v + l ) / 2 != l ) cand.push_back( ( v + l ) / 2 );
            if( v - 1 != l && v - 1 != ( v + l ) / 2 ) cand.push_back( v - 1 );
            for( long nv : cand ) {
                vector< Case > cs( 24, c );
                vector< RunSpec > v2( 24 );
                for( int k = 0; k < 24; k++ ) {
                    cs[ k ].cfg[ i ].second = nv;
                    if( k ) cs[ k ].seed = mix( c.seed, 1000 + 31 * tries + k );
                    fill( v2[ k ], cs[ k ] );
                }
                tries++;
                const int b = first_of( v2, rv, same );
                if( b >= 0 ) {
                    c.cfg[ i ].second = nv;
                    c.seed = cs[ b ].seed;
                    c.detail = rv[ b ].detail;
                    c.thash = rv[ b ].thash;
                    progress = true;
                    break;
                }
                if( mono() - t0 > budget * 0.4 ) break;
            }
        }
    }
    /* 2. record the decisions of that run */
    RecBuf *rb = shared< RecBuf >();
    RunSpec r2;
    fill( r2, c );
    r2.rec = rb;
    run_one( r2, r );
    if( ! same( *r ) || r->thash != c.thash ) { printf( "{\"error\":\"recording changed the run\"}\n" ); return 3; }
    const size_t nd0 = rb->ndec, nf0 = rb->nfault;
    Case tr = c;
    bool use = false;
    if( ! rb->overflow ) {
        tr.trace = true;
        tr.dec.assign( rb->dec, rb->dec + rb->ndec );
        tr.fault.assign( rb->fault, rb->fault + rb->nfault );
        auto attempt = [&]( const vector< Case > &cs ) {
            vector< RunSpec > v( cs.size() );
            for( size_t i = 0; i < cs.size(); i++ ) fill( v[ i ], cs[ i ] );
            return first_of( v, rv, same );
        };
        /* in time order for truncation: rec order is time order */
        vector< Case > one( 1, tr );
        sort_dec( one[ 0 ].dec );
        if( attempt( one ) == 0 ) {
            if( rv[ 0 ].thash != c.thash && getenv( "SIM_DEBUG" ) ) fprintf( stderr, "replay of full trace: hash differs %lx %lx steps %lu\n", rv[ 0 ].thash, c.thash, rv[ 0 ].steps );
            use = true;
            tr.thash = rv[ 0 ].thash;
            tr.detail = rv[ 0 ].detail;
            /* 3. remove decisions and faults while the same violation remains */
            auto reduce = [&]( auto get ) {
                size_t n = 2;
                while( get( tr ).size() >= 1 && mono() - t0 < budget ) {
                    const size_t len = get( tr ).size();
                    if( n > len ) n = len;
                    bool hit = false;
                    for( size_t base = 0; base < n && ! hit && mono() - t0 < budget; base += (size_t) nworkers ) {
                        vector< Case > cs;
                        for( size_t k = base; k < n && k < base + (size_t) nworkers; k++ ) {
                            /* latest chunks first: the tail usually does not matter */
                            const size_t kk = n - 1 - k, b = len * kk / n, e = len * ( kk + 1 ) / n;
                            Case x = tr;
                            auto &d = get( x );
                            d.erase( d.begin() + (long) b, d.begin() + (long) e );
                            cs.push_back( std::move( x ) );
                        }
                        vector< Case > srt = cs;
                        for( auto &x : srt ) sort_dec( x.dec );
                        const int b = attempt( srt );
                        if( b >= 0 ) {
                            tr = cs[ b ];
                            tr.thash = rv[ b ].thash;
                            tr.detail = rv[ b ].detail;
                            hit = true;
                        }
                    }
                    if( hit ) n = n > 2 ? n - 1 : 2;
                    else if( n >= len ) break;
                    else n *= 2;
                }
            };
            /* without store delays if they do not matter */
            {
                Case x = tr;
                for( auto &d : x.dec ) d.held = 0;
                vector< Case > srt( 1, x );
                sort_dec( srt[ 0 ].dec );
                if( attempt( srt ) == 0 ) { tr = x; tr.thash = rv[ 0 ].thash; tr.detail = rv[ 0 ].detail; }
            }
            reduce( []( Case &x ) -> vector< FaultRec > & { return x.fault; } );
            reduce( []( Case &x ) -> vector< Decision > & { return x.dec; } );
            for( size_t i = 0; i < tr.dec.size() && mono() - t0 < budget; i++ ) {
                if( ! tr.dec[ i ].held ) continue;
                Case x = tr;
                x.dec[ i ].held = 0;
                vector< Case > srt( 1, x );
                sort_dec( srt[ 0 ].dec );
                if( attempt( srt ) == 0 ) { tr = x; tr.thash = rv[ 0 ].thash; tr.detail = rv[ 0 ].detail; }
            }
            reduce( []( Case &x ) -> vector< FaultRec > & { return x.fault; } );
            sort_dec( tr.dec );
        } else if( getenv( "SIM_DEBUG" ) ) fprintf( stderr, "replay of the full trace gave %s %s\n", rv[ 0 ].cls, rv[ 0 ].detail );
    }
    const Case &fin = use ? tr : c;
    write_case( out, fin );
    printf( "{\"class\":%s,\"detail\":%s,\"run_time_s\":%.3f,\"accesses_before\":%lu,\"decisions_before\":%zu,\"decisions\":%zu,\"faults_before\":%zu,\"faults\":%zu,\"mode\":\"%s\",\"wall_s\":%.1f}\n",
            jstr( fin.cls.c_str() ).c_str(), jstr( fin.detail.c_str() ).c_str(), runlen, steps0, nd0, fin.dec.size(), nf0, fin.fault.size(),
            use ? "trace" : "seed", mono() - t0 );
    return 0;
}
/** one run, printed; --record 1 also replays the recorded trace and compares **/
static int one( const vector< string > &a )
{
    Case c;
    c.scn = opt( a, "--scen" );
    c.seed = hx( opt( a, "--run" ) );
    for( size_t i = 0; i + 2 < a.size(); i++ ) if( a[ i ] == "--cfg" ) c.cfg.push_back( { a[ i + 1 ], atol( a[ i + 2 ].c_str() ) } );
    RunSpec rs;
    fill( rs, c );
    Result *r = shared< Result >();
    run_one( rs, r );
    printf( "%s %s: %s\n thash=%lx hhash=%lx steps=%lu switches=%lu threads=%d vtime=%.6fs policy=%d\n cfg:", r->status == ST_OK ? "OK" : "FAIL", r->cls, r->detail, r->thash,
            r->hhash, r->steps, r->switches, r->threads, r->vtime * 1e-9, r->policy );
    for( int i = 0; i < r->ncfg; i++ ) printf( " %s=%ld", r->cfg[ i ].name, r->cfg[ i ].val );
    printf( "\n faults:" );
    for( int k = 0; k < F_NKINDS; k++ ) if( r->fired[ k ] ) printf( " %s=%lu", fault_name[ k ], r->fired[ k ] );
    printf( "\n probes:" );
    for( int k = 0; k < r->nprobe; k++ ) printf( " %s=%lu", r->probe[ k ].name, r->probe[ k ].n );
    printf( "\n" );
    return 0;
}
/** hashes of runs [0,n) of a property, for comparison between processes **/
static int hashes( const vector< string > &a )
{
    const string prop = opt( a, "--prop" ), only = opt( a, "--scen" );
    const uint64_t seed = hx( opt( a, "--seed", "1" ) ), n = hx( opt( a, "--runs", "100" ) );
    const bool viatrace = opt( a, "--trace", "0" ) == "1";
    vector< int > sc;
    for( int i = 0; i < nscen; i++ ) if( ( prop.empty() || prop == scen[ i ].prop ) && ( only.empty() || only == scen[ i ].name ) ) sc.push_back( i );
    vector< RunSpec > v( n );
    Result *rv = shared< Result >( n );
    for( uint64_t i = 0; i < n; i++ ) { v[ i ].seed = mix( seed, i ); v[ i ].scen = sc[ i % sc.size() ]; }
    if( ! viatrace ) first_of( v, rv, []( const Result & ) { return false; } );
    else {
        RecBuf *rb = shared< RecBuf >();
        Result *r = shared< Result >();
        for( uint64_t i = 0; i < n; i++ ) {
            v[ i ].rec = rb;
            run_one( v[ i ], r );
            if( rb->overflow ) { rv[ i ] = *r; continue; }
            Case c;
            c.scn = scen[ v[ i ].scen ].name;
            c.seed = v[ i ].seed;
            c.trace = true;
            c.dec.assign( rb->dec, rb->dec + rb->ndec );
            c.fault.assign( rb->fault, rb->fault + rb->nfault );
            sort_dec( c.dec );
            RunSpec x;
            fill( x, c );
            run_one( x, &rv[ i ] );
        }
    }
    for( uint64_t i = 0; i < n; i++ )
        printf( "%lu %s %s %lx %lx %lu\n", i, scen[ v[ i ].scen ].name, rv[ i ].cls, rv[ i ].thash, rv[ i ].hhash,
                rv[ i ].status == ST_OK ? rv[ i ].steps : 0 );   /* a crash ends within an uncounted stretch */
    return 0;
}
extern "C" void sim_cov_dump() __attribute__(( weak ));   /* tools/coverage.py */
int main( int argc, char **argv )
{
    /* identical addresses in every process */
    const int pers = personality( 0xffffffff );
    if( pers != -1 && ! ( pers & ADDR_NO_RANDOMIZE ) && ! getenv( "SIM_ASLR" ) && personality( (unsigned long) pers | ADDR_NO_RANDOMIZE ) != -1 ) {
        setenv( "SIM_ASLR", "1", 1 );
        execv( "/proc/self/exe", argv );
    }
    unsetenv( "GEN_DOT" );
    unsetenv( "SIM_ASLR" );
    vector< string > a( argv + 1, argv + argc );
    nworkers = atoi( opt( a, "--workers", "8" ).c_str() );
    const string m = a.empty() ? "" : a[ 0 ];
    setvbuf( stdout, nullptr, _IOFBF, 1 << 16 );
    int rc = 2;
    if( m == "explore" ) rc = explore( a );
    else if( m == "replay" ) rc = replay( a );
    else if( m == "shrink" ) rc = shrink( a );
    else if( m == "one" ) rc = one( a );
    else if( m == "hashes" ) rc = hashes( a );
    else if( m == "list" ) { for( int i = 0; i < nscen; i++ ) printf( "%s %s\n", scen[ i ].prop, scen[ i ].name ); rc = 0; }
    else fprintf( stderr, "usage: explore|replay|shrink|one|hashes|list ...\n" );
    fflush( stdout );
    if( sim_cov_dump ) sim_cov_dump();
    _exit( rc );
}
