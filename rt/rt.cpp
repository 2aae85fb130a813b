// The parts of libstdc++.so that header-only code calls out to, re-stated so that the engine can run them.
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <cstring>
#include <cstdlib>
#include <exception>
#include <new>
#include <stdexcept>
#include <typeinfo>
#include <string>
#include <map>
#include <list>
#include <unordered_map>
#include <functional>
#include <optional>
#include <variant>

namespace std {
static const char *sx_dup(const char *s, size_t n) { char *p = (char *)malloc(n + 1); memcpy(p, s, n); p[n] = 0; return p; }
__cow_string::__cow_string() { _M_p = sx_dup("", 0); }
__cow_string::__cow_string(const std::string &s) { _M_p = sx_dup(s.data(), s.size()); }
__cow_string::__cow_string(const char *s, size_t n) { _M_p = sx_dup(s, n); }
__cow_string::__cow_string(const __cow_string &o) noexcept { _M_p = o._M_p; }
__cow_string &__cow_string::operator=(const __cow_string &o) noexcept { _M_p = o._M_p; return *this; }
__cow_string::~__cow_string() {}
#define SX_EXC_BASE(N) \
    N::N(const std::string &s) : exception(), _M_msg(s) {} N::N(const char *s) : exception(), _M_msg(s, strlen(s)) {} \
    N::N(const N &o) noexcept : exception(o), _M_msg(o._M_msg) {} N &N::operator=(const N &o) noexcept { _M_msg = o._M_msg; return *this; } \
    N::N(N &&o) noexcept : exception(o), _M_msg(o._M_msg) {} N &N::operator=(N &&o) noexcept { _M_msg = o._M_msg; return *this; } \
    N::~N() noexcept {} const char *N::what() const noexcept { return _M_msg._M_p; }
SX_EXC_BASE(logic_error)
SX_EXC_BASE(runtime_error)
#define SX_EXC_DER(N, B) N::N(const std::string &s) : B(s) {} N::N(const char *s) : B(s) {} N::~N() noexcept {}
SX_EXC_DER(domain_error, logic_error) SX_EXC_DER(invalid_argument, logic_error) SX_EXC_DER(length_error, logic_error) SX_EXC_DER(out_of_range, logic_error)
SX_EXC_DER(range_error, runtime_error) SX_EXC_DER(overflow_error, runtime_error) SX_EXC_DER(underflow_error, runtime_error)
exception::~exception() noexcept {}
const char *exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {} const char *bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {} const char *bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {} const char *bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {} const char *bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {} const char *bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {} const char *bad_function_call::what() const noexcept { return "bad_function_call"; }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_bad_exception() { throw bad_exception(); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_logic_error(const char *s) { throw logic_error(s); }
void __throw_domain_error(const char *s) { throw domain_error(s); }
void __throw_invalid_argument(const char *s) { throw invalid_argument(s); }
void __throw_length_error(const char *s) { throw length_error(s); }
void __throw_out_of_range(const char *s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char *s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char *s) { throw runtime_error(s); }
void __throw_range_error(const char *s) { throw range_error(s); }
void __throw_overflow_error(const char *s) { throw overflow_error(s); }
void __throw_underflow_error(const char *s) { throw underflow_error(s); }
type_info::~type_info() {}
bool type_info::__is_pointer_p() const { return false; }
bool type_info::__is_function_p() const { return false; }
bool type_info::__do_catch(const type_info *, void **, unsigned) const { return false; }
bool type_info::__do_upcast(const __cxxabiv1::__class_type_info *, void **) const { return false; }
const nothrow_t nothrow{};

// ---- ordered containers: unbalanced search tree with libstdc++'s header conventions
typedef _Rb_tree_node_base *RB;
RB _Rb_tree_increment(RB x) throw() {
    if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; }
    else { RB y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; }
    return x; }
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return _Rb_tree_increment(const_cast<RB>(x)); }
RB _Rb_tree_decrement(RB x) throw() {
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
    else if (x->_M_left) { RB y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; }
    else { RB y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; }
    return x; }
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return _Rb_tree_decrement(const_cast<RB>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, RB x, RB p, _Rb_tree_node_base &h) throw() {
    x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;
    if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
    else { p->_M_right = x; if (p == h._M_right) h._M_right = x; } }
RB _Rb_tree_rebalance_for_erase(RB const z, _Rb_tree_node_base &h) throw() {
    auto repl = [&](RB a, RB b) { RB p = a->_M_parent; if (h._M_parent == a) h._M_parent = b; else if (p->_M_left == a) p->_M_left = b; else p->_M_right = b; if (b) b->_M_parent = p; };
    RB nl = 0, nr = 0; if (h._M_left == z) { nl = z->_M_right ? z->_M_right : z->_M_parent; if (z->_M_right) while (nl->_M_left) nl = nl->_M_left; }
    if (h._M_right == z) { nr = z->_M_left ? z->_M_left : z->_M_parent; if (z->_M_left) while (nr->_M_right) nr = nr->_M_right; }
    if (!z->_M_left) repl(z, z->_M_right); else if (!z->_M_right) repl(z, z->_M_left);
    else { RB y = z->_M_right; while (y->_M_left) y = y->_M_left; if (y->_M_parent != z) { repl(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; } repl(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y; }
    if (nl) h._M_left = nl; if (nr) h._M_right = nr;
    return z; }
namespace __detail {
void _List_node_base::_M_hook(_List_node_base *const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_next->_M_prev = _M_prev; _M_prev->_M_next = _M_next; }
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { size_t b = 13; while (b < n) b = b * 2 + 1; _M_next_resize = (size_t)-1; return b; }
std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const { if (nb <= 1) return {true, _M_next_bkt(13)}; return {false, 0}; }
}
size_t _Hash_bytes(const void *p, size_t n, size_t seed) { size_t h = seed; for (size_t i = 0; i < n; i++) h = h * 131 + ((const unsigned char *)p)[i]; return h; }
size_t _Fnv_hash_bytes(const void *p, size_t n, size_t seed) { return _Hash_bytes(p, n, seed); }
}
extern "C" void sxrt_throw_bad_alloc() { throw std::bad_alloc(); }
extern "C" void sxrt_throw_bad_cast() { throw std::bad_cast(); }
extern "C" __attribute__((weak)) void sxrt_sched_point() {}
// ---- error categories
#include <system_error>
namespace std {
inline namespace _V2 {
error_category::~error_category() noexcept {}
error_condition error_category::default_error_condition(int i) const noexcept { return error_condition(i, *this); }
bool error_category::equivalent(int i, const error_condition &c) const noexcept { return default_error_condition(i) == c; }
bool error_category::equivalent(const error_code &c, int i) const noexcept { return *this == c.category() && c.value() == i; }
__cow_string error_category::_M_message(int) const { return __cow_string(); }
struct sxrt_cat : error_category { const char *name() const noexcept override { return "generic"; } std::string message(int) const override { return "error"; } };
static sxrt_cat sxrt_generic, sxrt_system;
const error_category &generic_category() noexcept { return sxrt_generic; }
const error_category &system_category() noexcept { return sxrt_system; }
}
system_error::~system_error() noexcept {}
void __throw_system_error(int e) { throw system_error(error_code(e, generic_category())); }
}
