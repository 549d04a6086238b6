// Controlled clock: harnesses set symx_now_ns; linked into both the symbolic and the native build.
#include <chrono>
extern "C" { int64_t symx_now_ns = 1000000000ll; }
namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { return time_point(duration(symx_now_ns)); }
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(symx_now_ns)); }
} } }
