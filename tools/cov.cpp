/* which blocks of the library the simulated runs reached (tools/coverage.py) */
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <sys/mman.h>
#include <unistd.h>
static unsigned char *hit;
static uint32_t n = 1;
static const uintptr_t *tab[ 256 ][ 2 ];
static uint32_t base[ 256 ];
static int ntab, nbase;
static pid_t top;
extern "C" void sim_cov_dump()
{
    if( getpid() != top ) return;
    const char *f = getenv( "SIM_COV_OUT" );
    FILE *o = f ? fopen( f, "w" ) : nullptr;
    if( ! o ) return;
    for( int t = 0; t < ntab; t++ ) {
        uint32_t i = base[ t ];
        for( const uintptr_t *p = tab[ t ][ 0 ]; p < tab[ t ][ 1 ]; p += 2, i++ ) fprintf( o, "%d 0x%lx\n", (int) hit[ i ], (unsigned long) p[ 0 ] );
    }
    fclose( o );
}
extern "C" void __sanitizer_cov_trace_pc_guard_init( uint32_t *a, uint32_t *b )
{
    if( ! hit ) {
        hit = (unsigned char *) mmap( nullptr, 16 << 20, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0 );
        top = getpid();
    }
    if( a == b || *a ) return;
    base[ nbase++ ] = n;
    for( ; a < b; a++ ) *a = n++;
}
extern "C" void __sanitizer_cov_pcs_init( const uintptr_t *a, const uintptr_t *b )
{
    for( int i = 0; i < ntab; i++ ) if( tab[ i ][ 0 ] == a ) return;
    tab[ ntab ][ 0 ] = a; tab[ ntab ][ 1 ] = b; ntab++;
}
extern "C" void __sanitizer_cov_trace_pc_guard( uint32_t *g ) { hit[ *g ] = 1; }
