// Engine-only models: C++ exception run time, a few libc and libstdc++ functions.
#include <sv.h>
#include <exception>
#include <cxxabi.h>
#include <string>
#include <stdexcept>
#include <new>
#include <system_error>
#include <typeinfo>
#include <bits/functexcept.h>
#include <bits/exception_ptr.h>
#include <functional>
#include <variant>
#include <optional>
#define SVM __attribute__((section("svm"), noinline))
static const int MT = 6;
struct Hdr { long rc; void* type; void (*dtor)(void*); long pad[5]; };                       // 64 bytes before the object
struct Node { void* type; void* obj; Hdr* h; long handlers; Node* next; };   // one per throw
struct Glob { Node* caught; int uncaught; };
static Glob gl[MT];
extern "C" {
SVM void* __cxa_allocate_exception(size_t n) noexcept { Hdr* h = (Hdr*)sv_malloc(sizeof(Hdr) + n, 16); h->rc = 0; h->type = nullptr; h->dtor = nullptr; return h + 1; }
SVM void __cxa_free_exception(void* o) noexcept { sv_free((Hdr*)o - 1); }
SVM __cxxabiv1::__cxa_refcounted_exception* __cxa_init_primary_exception(void* o, std::type_info* t, void (*d)(void*)) noexcept { Hdr* h = (Hdr*)o - 1; h->rc = 0; h->type = t; h->dtor = d; return (__cxxabiv1::__cxa_refcounted_exception*)h; }
static SVM void rel(Hdr* h) { long n = --h->rc; sv_hb_release(h); if (n == 0) { sv_hb_acquire(h); if (h->dtor) h->dtor(h + 1); sv_free(h); } }
static SVM Node* mk(Hdr* h) { Node* n = (Node*)sv_malloc(sizeof(Node), 16); n->type = h->type; n->obj = h + 1; n->h = h; n->handlers = 0; n->next = nullptr; gl[sv_self()].uncaught++; return n; }
SVM void __cxa_throw(void* o, std::type_info* t, void (*d)(void*)) { Hdr* h = (Hdr*)o - 1; h->rc = 1; h->type = t; h->dtor = d; sv_throw(mk(h)); }
SVM void* __cxa_get_exception_ptr(void* p) noexcept { return ((Node*)p)->obj; }
SVM void* __cxa_begin_catch(void* p) noexcept { Node* n = (Node*)p; Glob& g = gl[sv_self()]; if (n->handlers < 0) n->handlers = -n->handlers + 1; else n->handlers++; g.uncaught--; if (g.caught != n) { n->next = g.caught; g.caught = n; } return n->obj; }
SVM void __cxa_end_catch() { Glob& g = gl[sv_self()]; Node* n = g.caught; if (!n) return; if (n->handlers < 0) { if (++n->handlers == 0) g.caught = n->next; } else if (--n->handlers == 0) { g.caught = n->next; Hdr* h = n->h; sv_free(n); rel(h); } }
SVM void __cxa_rethrow() { Glob& g = gl[sv_self()]; Node* n = g.caught; if (!n) std::terminate(); n->handlers = -n->handlers; g.uncaught++; sv_throw(n); }
SVM int memcmp(const void* a, const void* b, size_t n) { const unsigned char *x = (const unsigned char*)a, *y = (const unsigned char*)b; for (size_t i = 0; i < n; i++) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1; return 0; }
SVM int bcmp(const void* a, const void* b, size_t n) { return memcmp(a, b, n); }
SVM size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
SVM int strcmp(const char* a, const char* b) { while (*a && *a == *b) a++, b++; return (unsigned char)*a - (unsigned char)*b; }
SVM void* malloc(size_t n) { return sv_malloc(n, 16); }
SVM void* aligned_alloc(size_t a, size_t n) { return sv_malloc(n, a); }
SVM void free(void* p) { sv_free(p); }
}
namespace std {
SVM int uncaught_exceptions() noexcept { return gl[sv_self()].uncaught; }
SVM bool uncaught_exception() noexcept { return gl[sv_self()].uncaught > 0; }
namespace __exception_ptr {
SVM exception_ptr::exception_ptr(void* o) noexcept : _M_exception_object(o) { _M_addref(); }
SVM void exception_ptr::_M_addref() noexcept { if (_M_exception_object) ((Hdr*)_M_exception_object - 1)->rc++; }
SVM void exception_ptr::_M_release() noexcept { if (_M_exception_object) { rel((Hdr*)_M_exception_object - 1); _M_exception_object = nullptr; } }
SVM void* exception_ptr::_M_get() const noexcept { return _M_exception_object; }
SVM const type_info* exception_ptr::__cxa_exception_type() const noexcept { return (const type_info*)((Hdr*)_M_exception_object - 1)->type; }
}
SVM exception_ptr current_exception() noexcept { Node* n = gl[sv_self()].caught; if (!n) return exception_ptr(); exception_ptr e; *(void**)&e = n->obj; n->h->rc++; return e; }
SVM void rethrow_exception(exception_ptr p) { void* o = *(void**)&p; Hdr* h = (Hdr*)o - 1; h->rc++; sv_hb_acquire(h); Node* n = mk(h); p = nullptr; sv_throw(n); }
SVM exception::~exception() noexcept {}
SVM const char* exception::what() const noexcept { return "exception"; }
SVM bad_exception::~bad_exception() noexcept {}
SVM const char* bad_exception::what() const noexcept { return "bad_exception"; }
SVM bad_alloc::~bad_alloc() noexcept {}
SVM const char* bad_alloc::what() const noexcept { return "bad_alloc"; }
SVM bad_array_new_length::~bad_array_new_length() noexcept {}
SVM const char* bad_array_new_length::what() const noexcept { return "bad_array_new_length"; }
SVM __cow_string::__cow_string(const char* s, size_t) { _M_p = s; }
SVM __cow_string::__cow_string(const __cow_string& o) noexcept { _M_p = o._M_p; }
SVM __cow_string& __cow_string::operator=(const __cow_string& o) noexcept { _M_p = o._M_p; return *this; }
SVM __cow_string::~__cow_string() {}
SVM runtime_error::runtime_error(const char* s) : _M_msg(s, 0) {}
SVM runtime_error::runtime_error(const string& s) : _M_msg("string", 0) {}
SVM runtime_error::runtime_error(const runtime_error& o) noexcept : exception(), _M_msg(o._M_msg) {}
SVM runtime_error::~runtime_error() noexcept {}
SVM const char* runtime_error::what() const noexcept { return *(const char* const*)&_M_msg; }
SVM system_error::~system_error() noexcept {}
SVM error_category::~error_category() {}
SVM error_condition error_category::default_error_condition(int) const noexcept { return *(error_condition*)nullptr; }
SVM bool error_category::equivalent(int, const error_condition&) const noexcept { return false; }
SVM bool error_category::equivalent(const error_code& c, int i) const noexcept { return c.value() == i; }
struct gen_cat : error_category { const char* name() const noexcept override { return "generic"; } string message(int) const override { return string(); } };
static gen_cat gencat, syscat;
_V2::error_category const& _V2::generic_category() noexcept { return gencat; }
_V2::error_category const& _V2::system_category() noexcept { return syscat; }
SVM logic_error::logic_error(const char* s) : _M_msg(s, 0) {}
SVM logic_error::logic_error(const string& s) : _M_msg("string", 0) {}
SVM logic_error::logic_error(const logic_error& o) noexcept : exception(), _M_msg(o._M_msg) {}
SVM logic_error::~logic_error() noexcept {}
SVM const char* logic_error::what() const noexcept { return *(const char* const*)&_M_msg; }
SVM invalid_argument::invalid_argument(const char* s) : logic_error(s) {}
SVM invalid_argument::~invalid_argument() noexcept {}
SVM out_of_range::out_of_range(const char* s) : logic_error(s) {}
SVM out_of_range::~out_of_range() noexcept {}
SVM length_error::length_error(const char* s) : logic_error(s) {}
SVM length_error::~length_error() noexcept {}
SVM bad_function_call::~bad_function_call() noexcept {}
SVM const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
SVM void __throw_bad_alloc() { throw bad_alloc(); }
SVM void __throw_bad_array_new_length() { throw bad_array_new_length(); }
SVM void __throw_length_error(const char* s) { throw length_error(s); }
SVM void __throw_logic_error(const char* s) { throw logic_error(s); }
SVM void __throw_runtime_error(const char* s) { throw runtime_error(s); }
SVM void __throw_out_of_range(const char* s) { throw out_of_range(s); }
SVM void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
SVM void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
SVM void __throw_system_error(int e) { throw runtime_error("system_error"); }
SVM void __throw_bad_function_call() { throw bad_function_call(); }
}
