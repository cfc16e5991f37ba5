// Stands in for boost::optional of the Boost versions the client was written for: with the installed one it does not compile.
#ifndef OPTIONAL_STAND_IN
#define OPTIONAL_STAND_IN
#include_next <boost/optional.hpp>
#include <assert.h>
#include <new>
namespace boost {
#define optional client_optional
template <class T> class optional {
    bool has; union { T v; };
public:
    optional() : has(false) { }
    optional(none_t) : has(false) { }
    optional(const T &o) : has(true) { new (&v) T(o); }
    optional(const optional &o) : has(o.has) { if (has) new (&v) T(o.v); }
    ~optional() { reset(); }
    void reset() { if (has) { has = false; v.~T(); } }
    optional &operator=(none_t) { reset(); return *this; }
    optional &operator=(const T &o) { if (has) v = o; else { new (&v) T(o); has = true; } return *this; }
    optional &operator=(const optional &o) { if (this != &o) { if (o.has) *this = o.v; else reset(); } return *this; }
    explicit operator bool() const { return has; }
    bool operator!() const { return !has; }
    T &operator*() { assert(has); return v; }
    const T &operator*() const { assert(has); return v; }
    T *operator->() { assert(has); return &v; }
    const T *operator->() const { assert(has); return &v; }
    T &get() { assert(has); return v; }
    const T &get() const { assert(has); return v; }
};
template <class T> bool operator==(const optional<T> &a, const T &b) { return a && *a == b; }
template <class T> bool operator!=(const optional<T> &a, const T &b) { return !(a == b); }
}
#endif
