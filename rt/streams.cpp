// Backing of the stream models: doubles passed as text, and files kept in memory.
#include "fakefs.hh"
#include <string>
#include <vector>
#include <map>
static std::vector<double>& dbl() { static std::vector<double>* v = new std::vector<double>; return *v; }
extern "C" size_t symx_dbl_put(double v) { dbl().push_back(v); return dbl().size() - 1; }
extern "C" double symx_dbl_get(size_t k) { return dbl()[k]; }
#ifndef SYMX_OWN_FS
__attribute__((weak)) bool symx_fs_create(const std::string&) { return true; }
__attribute__((weak)) bool symx_fs_read(const std::string&, std::string&) { return false; }
__attribute__((weak)) void symx_fs_commit(const std::string&, const std::string&) {}
__attribute__((weak)) bool symx_fs_full() { return false; }
#endif
