/* simint.h - shared between the runtime and the driver */
#ifndef SIMINT_H
#define SIMINT_H 1
#include "simrt.h"
namespace sim
{
enum Mode : int { M_EXPLORE, M_REPLAY };
enum { ST_NONE = 0, ST_OK = 1, ST_FAIL = 2 };
constexpr int MAXPROBE = 96;
constexpr int MAXSCEN = 128;
constexpr size_t MAXREC_D = 1 << 21;
constexpr size_t MAXREC_F = 1 << 14;
struct Decision
{
    uint64_t lev;       /* P: the thread's access count; V: its voluntary-switch count */
    uint64_t dur;
    uint16_t fiber, target;
    int16_t  stallwho;
    uint8_t  type;
    uint8_t  held;      /* stores not yet visible to others: count, << 4 for how many switches */
};
struct FaultRec { uint32_t kind; uint32_t pad; uint64_t idx, val; };
struct RecBuf
{
    size_t ndec, nfault;
    int overflow;
    FaultRec fault[ MAXREC_F ];
    Decision dec[ MAXREC_D ];
};
struct CfgVal { char name[ 16 ]; long val, lo; };
struct RunSpec
{
    Mode mode = M_EXPLORE;
    int scen = 0;
    uint64_t seed = 0;
    uint64_t steplimit = 25000000;
    uint64_t vlimit = 3600ull * 1000000000ull;
    int ncfg = 0;
    CfgVal cfg[ MAXCFG ];
    const Decision *dec = nullptr;
    size_t ndec = 0;
    const FaultRec *fault = nullptr;
    size_t nfault = 0;
    RecBuf *rec = nullptr;
};
struct Result
{
    volatile int done;
    int status;
    int abnormal;
    int policy;
    char cls[ 40 ];
    char detail[ 400 ];
    uint64_t thash, hhash, steps, vtime, switches, contended, allocs;
    int threads;
    uint64_t fired[ F_NKINDS ], opp[ F_NKINDS ];
    int nprobe;
    struct { const char *name; uint64_t n; } probe[ MAXPROBE ];
    int ncfg;
    CfgVal cfg[ MAXCFG ];
};
extern Scenario scen[ MAXSCEN ];
extern int nscen;
uint64_t mix( uint64_t, uint64_t );
void child_run( const RunSpec &, Result * );
void host_enter();
void host_leave();
extern void (*on_abnormal)( const char *, const char * );
int unjoined_threads();
}
#endif
