// Runtime support linked into the bitcode handed to symx: plain C++ versions of
// the libc/libstdc++ pieces that exist only as machine code.
#include <cstddef>
#include <cstdint>
#include <bits/stl_tree.h>
#include <list>

extern "C" {
size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
int memcmp(const void* a, const void* b, size_t n) {
    const unsigned char *x = (const unsigned char*)a, *y = (const unsigned char*)b;
    for (size_t i = 0; i < n; i++) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1;
    return 0;
}
int bcmp(const void* a, const void* b, size_t n) {
    // branch-free: one disjunction instead of one path per byte
    const unsigned char *x = (const unsigned char*)a, *y = (const unsigned char*)b;
    unsigned d = 0;
    for (size_t i = 0; i < n; i++) d |= (unsigned)(x[i] ^ y[i]);
    return d != 0;
}
int strcmp(const char* a, const char* b) {
    size_t i = 0;
    while (a[i] && a[i] == b[i]) i++;
    return (unsigned char)a[i] - (unsigned char)b[i];
}
int strncmp(const char* a, const char* b, size_t n) {
    for (size_t i = 0; i < n; i++) { if (a[i] != b[i]) return (unsigned char)a[i] - (unsigned char)b[i]; if (!a[i]) return 0; }
    return 0;
}
char* strcpy(char* d, const char* s) { size_t i = 0; do d[i] = s[i]; while (s[i++]); return d; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
void* memchr(const void* p, int c, size_t n) {
    const unsigned char* x = (const unsigned char*)p;
    for (size_t i = 0; i < n; i++) if (x[i] == (unsigned char)c) return (void*)(x + i);
    return 0;
}
char* strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return 0; } }
char* strdup(const char* s);
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int* __errno_location();
static unsigned long long parseU(const char* s, char** end, int base, bool sgn, bool& neg, bool& ovf, bool& any) {
    const char* p = s;
    while (isspace((unsigned char)*p)) p++;
    neg = false; ovf = false; any = false;
    if (*p == '-') { neg = true; p++; } else if (*p == '+') p++;
    if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X')) { p += 2; base = 16; }
    else if (base == 0) base = *p == '0' ? 8 : 10;
    unsigned long long v = 0;
    for (;; p++) {
        int d;
        if (*p >= '0' && *p <= '9') d = *p - '0';
        else if (*p >= 'a' && *p <= 'z') d = *p - 'a' + 10;
        else if (*p >= 'A' && *p <= 'Z') d = *p - 'A' + 10;
        else break;
        if (d >= base) break;
        any = true;
        unsigned long long nv = v * base + d;
        if (v > (~0ull - d) / base) ovf = true;
        v = nv;
    }
    if (end) *end = (char*)(any ? p : s);
    return v;
}
long strtol(const char* s, char** e, int b) {
    bool n, o, a;
    unsigned long long v = parseU(s, e, b, true, n, o, a);
    if (o || (!n && v > 0x7fffffffffffffffull) || (n && v > 0x8000000000000000ull)) { *__errno_location() = 34; return n ? (long)0x8000000000000000ull : 0x7fffffffffffffffl; }
    return n ? -(long)v : (long)v;
}
long long strtoll(const char* s, char** e, int b) { return strtol(s, e, b); }
unsigned long strtoul(const char* s, char** e, int b) {
    bool n, o, a;
    unsigned long long v = parseU(s, e, b, false, n, o, a);
    if (o) { *__errno_location() = 34; return ~0ul; }
    return n ? -v : v;
}
unsigned long long strtoull(const char* s, char** e, int b) { return strtoul(s, e, b); }
long __isoc23_strtol(const char* s, char** e, int b) { return strtol(s, e, b); }
long long __isoc23_strtoll(const char* s, char** e, int b) { return strtol(s, e, b); }
unsigned long __isoc23_strtoul(const char* s, char** e, int b) { return strtoul(s, e, b); }
unsigned long long __isoc23_strtoull(const char* s, char** e, int b) { return strtoul(s, e, b); }
int atoi(const char* s) { return (int)strtol(s, 0, 10); }
long atol(const char* s) { return strtol(s, 0, 10); }
int abs(int x) { return x < 0 ? -x : x; }
}

namespace std {
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() {
    if (x->_M_right) {
        x = x->_M_right;
        while (x->_M_left) x = x->_M_left;
    } else {
        _Rb_tree_node_base* y = x->_M_parent;
        while (x == y->_M_right) { x = y; y = y->_M_parent; }
        if (x->_M_right != y) x = y;
    }
    return x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() {
    // the header is its own grandparent and red; this tree never recolours, so use the
    // structural test: header->parent->parent == header
    if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) return x->_M_right;
    if (x->_M_left) {
        _Rb_tree_node_base* y = x->_M_left;
        while (y->_M_right) y = y->_M_right;
        return y;
    }
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_left) { x = y; y = y->_M_parent; }
    return y;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
// An unbalanced search tree: same ordering semantics, no rebalancing.
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
    x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;
    if (left) {
        p->_M_left = x;
        if (p == &h) { h._M_parent = x; h._M_right = x; }
        else if (p == h._M_left) h._M_left = x;
    } else {
        p->_M_right = x;
        if (p == h._M_right) h._M_right = x;
    }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
    _Rb_tree_node_base* next = 0;
    if (h._M_left == z) h._M_left = _Rb_tree_increment(z);
    if (h._M_right == z) h._M_right = _Rb_tree_decrement(z);
    (void)next;
    _Rb_tree_node_base* repl;
    if (!z->_M_left) repl = z->_M_right;
    else if (!z->_M_right) repl = z->_M_left;
    else {
        _Rb_tree_node_base* y = z->_M_right;
        while (y->_M_left) y = y->_M_left;
        if (y != z->_M_right) {
            y->_M_parent->_M_left = y->_M_right;
            if (y->_M_right) y->_M_right->_M_parent = y->_M_parent;
            y->_M_right = z->_M_right;
            z->_M_right->_M_parent = y;
        }
        y->_M_left = z->_M_left;
        z->_M_left->_M_parent = y;
        repl = y;
    }
    if (repl) repl->_M_parent = z->_M_parent;
    if (h._M_parent == z) h._M_parent = repl;
    else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = repl;
    else z->_M_parent->_M_right = repl;
    if (!h._M_parent) { h._M_left = &h; h._M_right = &h; }
    return z;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev; }
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept {
    if (this != l) {
        l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f;
        _List_node_base* t = this->_M_prev;
        this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t;
    }
}
void _List_node_base::_M_reverse() noexcept {
    _List_node_base* t = this;
    do { _List_node_base* n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while (t != this);
}
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
    if (x._M_next != &x) {
        if (y._M_next != &y) { _List_node_base* t = x._M_next; x._M_next = y._M_next; y._M_next = t; t = x._M_prev; x._M_prev = y._M_prev; y._M_prev = t;
            x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
        else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; }
    } else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; }
}
}
}
