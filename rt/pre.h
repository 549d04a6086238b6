#pragma once
#include "symx.h"
#include <string>
#if defined(SYMX_BC) && defined(SYMX_CONCSTR)
// Numbers become text (file names): fix the value first, one path per feasible value.
namespace std { template <class T> inline string symx_to_string(T v) { return to_string((T)symx_concretize((uint64_t)v)); } }
#define to_string symx_to_string
#elif defined(SYMX_BC) && defined(SYMX_TOKSTR)
// Numbers are written into a document: symbolic ones become tokens that symx_tok_value() turns back into the value.
extern "C" uint64_t symx_tok_put(uint64_t v);
#if SYMX_TOKSTR + 0 == 2
// ... and file names: equal values have equal text (the harness's table decides, one path per equality).
namespace std { template <class T> inline string symx_to_string(T v) { uint64_t k = symx_tok_put((uint64_t)v); return k == ~0ull ? to_string(v) : "#" + to_string(k); } }
#else
namespace std {
template <class T> inline string symx_to_string(T v) { if (symx_is_symbolic((uint64_t)v)) return "#" + to_string(symx_tok_put((uint64_t)v)); return to_string(v); }
}
#endif
#define to_string symx_to_string
#elif defined(SYMX_BC) && defined(SYMX_LOGSTR)
// Numbers only reach log messages in these harnesses: do not fork on their decimal length.
namespace std {
template <class T> inline string symx_to_string(T v) { if (symx_is_symbolic((uint64_t)v)) return string("#"); return to_string(v); }
inline string symx_to_string(double v) { return to_string((long long)v); }
}
#define to_string symx_to_string
#endif
