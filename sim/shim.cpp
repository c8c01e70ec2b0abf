// Linked into the instrumented node library: routes memory functions to the race detector.
#include <cstddef>
extern "C" {
void* __simwrap_memcpy(void*, const void*, std::size_t); void* __simwrap_memmove(void*, const void*, std::size_t); void* __simwrap_memset(void*, int, std::size_t); int __simwrap_memcmp(const void*, const void*, std::size_t);
void __simwrap_rb_insert(bool, void*, void*, void*, void (*)(bool, void*, void*, void*));
void __real__ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(bool, void*, void*, void*);
void* __wrap_memcpy(void* d, const void* s, std::size_t n) { return __simwrap_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, std::size_t n) { return __simwrap_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, std::size_t n) { return __simwrap_memset(d, c, n); }
int __wrap_memcmp(const void* a, const void* b, std::size_t n) { return __simwrap_memcmp(a, b, n); }
void __wrap__ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(bool l, void* x, void* p, void* h) { __simwrap_rb_insert(l, x, p, h, __real__ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_); }
}
