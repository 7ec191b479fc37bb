#include "common.hpp"
Lives lives;
SIM_HOST void app_over( uint64_t mark )
{
    if( sim::live_threads() ) VIOLATES( "P06", "threads-left", "%d threads still run when the execution has returned", sim::live_threads() );
    if( strcmp( sim::prop(), "P08" ) != 0 ) return;
    char what[ 200 ];
    const size_t n = sim::heap_leaks( mark, what, sizeof what );
    if( n ) VIOLATES( "P08", "leak", "%zu blocks left behind: %s", n, what );
    sim::probe( "applications that left nothing behind" );
}
SIM_HOST void lives_reset() { memset( (void *) &lives, 0, sizeof lives ); }
#define LIFE( T ) \
SIM_HOST void T::born() \
{ \
    me = this; \
    state = OBJ_ALIVE ^ (uintptr_t) this; \
    lives.made++; \
    if( ++lives.live > lives.maxlive ) lives.maxlive = lives.live; \
} \
SIM_HOST void T::check( const char *what ) const \
{ \
    if( sim::in_heap( this ) && ! sim::heap_live( this ) ) VIOLATES( "P08 P10 P04 P01 P09", "dead-object", #T " %s in freed memory", what ); \
    if( state == ( OBJ_DEAD ^ (uintptr_t) this ) ) VIOLATES( "P08 P10 P04 P01 P09", "dead-object", #T " %lu %s after it was destroyed", (unsigned long) id, what ); \
    if( me != this || state != ( OBJ_ALIVE ^ (uintptr_t) this ) ) \
        VIOLATES( "P08 P10 P04 P01 P09", "not-an-object", #T " %s that was never constructed at this place", what ); \
} \
SIM_HOST void T::died() \
{ \
    if( sim::in_heap( this ) && ! sim::heap_live( this ) ) VIOLATES( "P08 P10", "dead-object", #T " destroyed in freed memory" ); \
    if( state == ( OBJ_DEAD ^ (uintptr_t) this ) ) VIOLATES( "P08 P10", "double-destroy", #T " %lu destroyed twice", (unsigned long) id ); \
    if( me != this || state != ( OBJ_ALIVE ^ (uintptr_t) this ) ) \
        VIOLATES( "P08 P10 P04", "not-an-object", #T " destroyed that was never constructed at this place" ); \
    state = OBJ_DEAD ^ (uintptr_t) this; \
    lives.dead++; \
    lives.live--; \
}
LIFE( Obj )
LIFE( Big )
/* ------------------------------------------------- memory or threads run out */
bool EXHAUST;
SIM_HOST void ended_by_fault( const char *cls, const char *what )
{
    sim::probe( strcmp( cls, "exit" ) == 0 ? "ended by exit with a message" : strcmp( cls, "terminate" ) == 0 ? "ended by an uncaught exception" : "ended by an assertion or abort" );
    if( strcmp( cls, "exit" ) != 0 ) return;   /* the C++ runtime or assert() names the reason */
    if( strcmp( what, "exit(0) called" ) == 0 ) VIOLATES( "P18", "silent", "an allocation or thread creation failed and the process ended as if it had succeeded" );
    if( sim::diag_bytes() == 0 ) VIOLATES( "P18", "silent", "an allocation or thread creation failed and the process ended without a diagnostic" );
}
void run_out( void (*run)( const sim::Cfg & ), const sim::Cfg &c )
{
    EXHAUST = true;
    sim::on_tolerated( ended_by_fault );
    sim::tolerate_abort_after( FBIT( sim::F_ALLOC ) | FBIT( sim::F_THREAD ) );
    if( c[ "early" ] ) sim::faults_enable( true );
    try { run( c ); }
    catch( ... ) {
        sim::faults_enable( false );
        if( ! sim::fired( sim::F_ALLOC ) && ! sim::fired( sim::F_THREAD ) ) VIOLATES( "P18", "error", "an error reached the caller although nothing had failed" );
        sim::sleep_ns( 50000000 );             /* whoever still runs now does so without the application */
        sim::probe( "ended by an error that reached the caller" );
        return;
    }
    if( sim::fired( sim::F_ALLOC ) || sim::fired( sim::F_THREAD ) ) sim::probe( "completed although something failed" );
}
