// C++ runtime pieces that live in libstdc++.so, for the symbolic executor.
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <list>
#include <map>
#include <new>
#include <stdexcept>
#include <string>
#include <typeinfo>
#include <unordered_map>
#include <bits/functexcept.h>

extern "C" {
void vp_unwind(void *exc) __attribute__((noreturn));
struct ExcHdr { void *ti; void (*dtor)(void *); long handlers; ExcHdr *next; long pad[4]; };
static ExcHdr *caught;
static int uncaught;
static inline ExcHdr *hdr(void *o) { return (ExcHdr *)((char *)o - 64); }
void *__cxa_allocate_exception(size_t n) noexcept {
    char *p = (char *)malloc(n + 64);
    memset(p, 0, 64);
    return p + 64;
}
void __cxa_free_exception(void *o) noexcept { free((char *)o - 64); }
void __cxa_throw(void *o, void *ti, void (*dtor)(void *)) {
    hdr(o)->ti = ti;
    hdr(o)->dtor = dtor;
    uncaught++;
    vp_unwind(o);
}
void *__cxa_begin_catch(void *o) noexcept {
    ExcHdr *h = hdr(o);
    h->handlers = h->handlers < 0 ? -h->handlers + 1 : h->handlers + 1;
    if (caught != h) { h->next = caught; caught = h; }
    uncaught--;
    return o;
}
void *__cxa_get_exception_ptr(void *o) noexcept { return o; }
void __cxa_end_catch() {
    ExcHdr *h = caught;
    if (!h) return;
    if (h->handlers < 0) {
        if (++h->handlers == 0) caught = h->next;
    } else if (--h->handlers == 0) {
        caught = h->next;
        void *o = (char *)h + 64;
        if (h->dtor) h->dtor(o);
        __cxa_free_exception(o);
    }
}
void __cxa_rethrow() {
    ExcHdr *h = caught;
    if (!h) std::terminate();
    h->handlers = -h->handlers;
    uncaught++;
    vp_unwind((char *)h + 64);
}
int __cxa_guard_acquire(char *g) { if (*g) return 0; return 1; }
void __cxa_guard_release(char *g) { *g = 1; }
void __cxa_guard_abort(char *g) {}
void __cxa_call_unexpected(void *) { std::terminate(); }
void __cxa_bad_cast() { throw std::bad_cast(); }
void __cxa_throw_bad_array_new_length() { throw std::bad_array_new_length(); }
int __gxx_personality_v0(...) { return 0; }
}
namespace std {
const nothrow_t nothrow{};
bool uncaught_exception() noexcept { return uncaught > 0; }
int uncaught_exceptions() noexcept { return uncaught; }
exception::~exception() noexcept {}
const char *exception::what() const noexcept { return "std::exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char *bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char *bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char *bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char *bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_exception::~bad_exception() noexcept {}
const char *bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_function_call::~bad_function_call() noexcept {}
const char *bad_function_call::what() const noexcept { return "bad_function_call"; }
type_info::~type_info() {}
bool type_info::__is_pointer_p() const { return false; }
bool type_info::__is_function_p() const { return false; }

__cow_string::__cow_string() : _M_p(strdup("")) {}
__cow_string::__cow_string(const std::string &s) : _M_p(strdup(s.c_str())) {}
__cow_string::__cow_string(const char *s, size_t) : _M_p(strdup(s)) {}
__cow_string::__cow_string(const __cow_string &o) noexcept : _M_p(strdup(o._M_p)) {}
__cow_string &__cow_string::operator=(const __cow_string &o) noexcept { if (this != &o) { free((void *)_M_p); _M_p = strdup(o._M_p); } return *this; }
__cow_string::~__cow_string() { free((void *)_M_p); }
__cow_string::__cow_string(__cow_string &&o) noexcept : _M_p(o._M_p) { o._M_p = strdup(""); }
__cow_string &__cow_string::operator=(__cow_string &&o) noexcept { const char *t = _M_p; _M_p = o._M_p; o._M_p = t; return *this; }

#define BASE(C) \
    C::C(const string &s) : _M_msg(s) {} \
    C::C(const char *s) : _M_msg(s, 0) {} \
    C::C(const C &o) noexcept : exception(), _M_msg(o._M_msg) {} \
    C &C::operator=(const C &o) noexcept { _M_msg = o._M_msg; return *this; } \
    C::C(C &&o) noexcept : exception(), _M_msg(static_cast<__cow_string &&>(o._M_msg)) {} \
    C &C::operator=(C &&o) noexcept { _M_msg = static_cast<__cow_string &&>(o._M_msg); return *this; } \
    C::~C() noexcept {} \
    const char *C::what() const noexcept { return _M_msg._M_p; }
BASE(logic_error)
BASE(runtime_error)
#define DER(C, B) \
    C::C(const string &s) : B(s) {} \
    C::C(const char *s) : B(s) {} \
    C::~C() noexcept {}
DER(domain_error, logic_error)
DER(invalid_argument, logic_error)
DER(length_error, logic_error)
DER(out_of_range, logic_error)
DER(range_error, runtime_error)
DER(overflow_error, runtime_error)
DER(underflow_error, runtime_error)

void __throw_bad_exception() { throw bad_exception(); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_logic_error(const char *s) { throw logic_error(s); }
void __throw_domain_error(const char *s) { throw domain_error(s); }
void __throw_invalid_argument(const char *s) { throw invalid_argument(s); }
void __throw_length_error(const char *s) { throw length_error(s); }
void __throw_out_of_range(const char *s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char *s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char *s) { throw runtime_error(s); }
void __throw_range_error(const char *s) { throw range_error(s); }
void __throw_overflow_error(const char *s) { throw overflow_error(s); }
void __throw_underflow_error(const char *s) { throw underflow_error(s); }
void __throw_bad_function_call() { throw bad_function_call(); }

template class __cxx11::basic_string<char>;
template string operator+(const string &, const string &);
template string operator+(const char *, const string &);

// red-black tree
static _Rb_tree_node_base *inc(_Rb_tree_node_base *x) {
    if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
    _Rb_tree_node_base *y = x->_M_parent;
    while (x == y->_M_right) { x = y; y = y->_M_parent; }
    if (x->_M_right != y) x = y;
    return x;
}
static _Rb_tree_node_base *dec(_Rb_tree_node_base *x) {
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
    if (x->_M_left) { _Rb_tree_node_base *y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
    _Rb_tree_node_base *y = x->_M_parent;
    while (x == y->_M_left) { x = y; y = y->_M_parent; }
    return y;
}
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw() { return inc(x); }
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return inc(const_cast<_Rb_tree_node_base *>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw() { return dec(x); }
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return dec(const_cast<_Rb_tree_node_base *>(x)); }
static void rotl(_Rb_tree_node_base *x, _Rb_tree_node_base *&root) {
    _Rb_tree_node_base *y = x->_M_right;
    x->_M_right = y->_M_left;
    if (y->_M_left) y->_M_left->_M_parent = x;
    y->_M_parent = x->_M_parent;
    if (x == root) root = y;
    else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y;
    else x->_M_parent->_M_right = y;
    y->_M_left = x;
    x->_M_parent = y;
}
static void rotr(_Rb_tree_node_base *x, _Rb_tree_node_base *&root) {
    _Rb_tree_node_base *y = x->_M_left;
    x->_M_left = y->_M_right;
    if (y->_M_right) y->_M_right->_M_parent = x;
    y->_M_parent = x->_M_parent;
    if (x == root) root = y;
    else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y;
    else x->_M_parent->_M_left = y;
    y->_M_right = x;
    x->_M_parent = y;
}
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &header) throw() {
    _Rb_tree_node_base *&root = header._M_parent;
    x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_red;
    if (left) {
        p->_M_left = x;
        if (p == &header) { header._M_parent = x; header._M_right = x; }
        else if (p == header._M_left) header._M_left = x;
    } else {
        p->_M_right = x;
        if (p == header._M_right) header._M_right = x;
    }
    while (x != root && x->_M_parent->_M_color == _S_red) {
        _Rb_tree_node_base *const g = x->_M_parent->_M_parent;
        if (x->_M_parent == g->_M_left) {
            _Rb_tree_node_base *const y = g->_M_right;
            if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; g->_M_color = _S_red; x = g; }
            else {
                if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotl(x, root); }
                x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; rotr(g, root);
            }
        } else {
            _Rb_tree_node_base *const y = g->_M_left;
            if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; g->_M_color = _S_red; x = g; }
            else {
                if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotr(x, root); }
                x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; rotl(g, root);
            }
        }
    }
    root->_M_color = _S_black;
}
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &header) throw() {
    _Rb_tree_node_base *&root = header._M_parent;
    _Rb_tree_node_base *&leftmost = header._M_left;
    _Rb_tree_node_base *&rightmost = header._M_right;
    _Rb_tree_node_base *y = z, *x = 0, *xp = 0;
    if (!y->_M_left) x = y->_M_right;
    else if (!y->_M_right) x = y->_M_left;
    else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
    if (y != z) {
        z->_M_left->_M_parent = y;
        y->_M_left = z->_M_left;
        if (y != z->_M_right) {
            xp = y->_M_parent;
            if (x) x->_M_parent = y->_M_parent;
            y->_M_parent->_M_left = x;
            y->_M_right = z->_M_right;
            z->_M_right->_M_parent = y;
        } else xp = y;
        if (root == z) root = y;
        else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y;
        else z->_M_parent->_M_right = y;
        y->_M_parent = z->_M_parent;
        _Rb_tree_color t = y->_M_color; y->_M_color = z->_M_color; z->_M_color = t;
        y = z;
    } else {
        xp = y->_M_parent;
        if (x) x->_M_parent = y->_M_parent;
        if (root == z) root = x;
        else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x;
        else z->_M_parent->_M_right = x;
        if (leftmost == z) {
            if (!z->_M_right) leftmost = z->_M_parent;
            else { _Rb_tree_node_base *m = x; while (m->_M_left) m = m->_M_left; leftmost = m; }
        }
        if (rightmost == z) {
            if (!z->_M_left) rightmost = z->_M_parent;
            else { _Rb_tree_node_base *m = x; while (m->_M_right) m = m->_M_right; rightmost = m; }
        }
    }
    if (y->_M_color != _S_red) {
        while (x != root && (!x || x->_M_color == _S_black)) {
            if (x == xp->_M_left) {
                _Rb_tree_node_base *w = xp->_M_right;
                if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotl(xp, root); w = xp->_M_right; }
                if ((!w->_M_left || w->_M_left->_M_color == _S_black) && (!w->_M_right || w->_M_right->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
                else {
                    if (!w->_M_right || w->_M_right->_M_color == _S_black) { w->_M_left->_M_color = _S_black; w->_M_color = _S_red; rotr(w, root); w = xp->_M_right; }
                    w->_M_color = xp->_M_color; xp->_M_color = _S_black;
                    if (w->_M_right) w->_M_right->_M_color = _S_black;
                    rotl(xp, root);
                    break;
                }
            } else {
                _Rb_tree_node_base *w = xp->_M_left;
                if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotr(xp, root); w = xp->_M_left; }
                if ((!w->_M_right || w->_M_right->_M_color == _S_black) && (!w->_M_left || w->_M_left->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
                else {
                    if (!w->_M_left || w->_M_left->_M_color == _S_black) { w->_M_right->_M_color = _S_black; w->_M_color = _S_red; rotl(w, root); w = xp->_M_left; }
                    w->_M_color = xp->_M_color; xp->_M_color = _S_black;
                    if (w->_M_left) w->_M_left->_M_color = _S_black;
                    rotr(xp, root);
                    break;
                }
            }
        }
        if (x) x->_M_color = _S_black;
    }
    return y;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base *const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev; }
void _List_node_base::_M_transfer(_List_node_base *const f, _List_node_base *const l) noexcept {
    if (this != l) {
        l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f;
        _List_node_base *const t = this->_M_prev;
        this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t;
    }
}
void _List_node_base::_M_reverse() noexcept {
    _List_node_base *t = this;
    do { _List_node_base *n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while (t != this);
}
static const unsigned long primes[] = {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 103, 109, 113, 127, 137, 139, 149, 157, 167, 179, 193, 199, 211, 227, 241, 257, 277, 293, 313, 337, 359, 383, 409, 439, 467, 503, 541, 577, 619, 661, 709, 761, 823, 887, 953, 1031, 1109, 1193, 1289, 1381, 1493, 1613, 1741, 1879, 2029, 2179, 2357, 2549, 2753, 2971, 3209, 3469, 3739, 4027, 4349, 4703, 5087, 5503, 5953, 6427, 6949, 7517, 8123, 8783, 9497, 10273, 11113, 12011, 12983, 14033, 15173, 16411, 17749, 19183, 20753, 22447, 24281, 26267, 28411, 30727, 33223, 35933, 38873, 42043, 45481, 49201, 53201, 57557, 62233, 67307, 72817, 78779, 85229, 92203, 99733};
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
    if (n < 14) {
        static const unsigned char fast[] = {2, 2, 2, 3, 5, 5, 7, 7, 11, 11, 11, 11, 13, 13};
        if (n == 0) return 1;
        _M_next_resize = (size_t)(fast[n] * (double)_M_max_load_factor);
        return fast[n];
    }
    size_t i = 0;
    while (i + 1 < sizeof primes / sizeof *primes && primes[i] < n) i++;
    _M_next_resize = (size_t)(primes[i] * (double)_M_max_load_factor);
    return primes[i];
}
std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const {
    if (ne + ni > _M_next_resize) {
        size_t a = ne + ni, b = _M_next_resize ? 0 : 11;
        double mb = (double)(a > b ? a : b) / (double)_M_max_load_factor;
        if (mb >= nb) {
            size_t x = (size_t)mb + 1, y = nb * 2;
            return std::make_pair(true, _M_next_bkt(x > y ? x : y));
        }
        _M_next_resize = (size_t)(nb * (double)_M_max_load_factor);
    }
    return std::make_pair(false, 0);
}
}
size_t _Hash_bytes(const void *ptr, size_t len, size_t seed) {
    const size_t mul = (((size_t)0xc6a4a793UL) << 32UL) + (size_t)0x5bd1e995UL;
    const char *const buf = static_cast<const char *>(ptr);
    const size_t la = len & ~(size_t)7;
    const char *const end = buf + la;
    size_t hash = seed ^ (len * mul);
    for (const char *p = buf; p != end; p += 8) {
        size_t k; memcpy(&k, p, 8);
        k *= mul; k ^= k >> 47; k *= mul;
        hash ^= k; hash *= mul;
    }
    if ((len & 7) != 0) {
        size_t d = 0;
        for (int n = (len & 7) - 1; n >= 0; n--) d = (d << 8) + (unsigned char)end[n];
        hash ^= d; hash *= mul;
    }
    hash ^= hash >> 47; hash *= mul; hash ^= hash >> 47;
    return hash;
}
size_t _Fnv_hash_bytes(const void *p, size_t len, size_t h) {
    const char *c = (const char *)p;
    for (; len; --len) { h ^= (size_t)*c++; h *= 1099511628211ULL; }
    return h;
}
}
