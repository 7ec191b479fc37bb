#ifndef DEMO_STUB_DEMANGLE
#define DEMO_STUB_DEMANGLE 1
#include <string>
namespace raft
{
inline std::string demangle( const char *name ) { return std::string( name ); }
}
#endif
