// model of the part of pybind11 the scripting interface returns its results with and registers its functions by
#pragma once
#include <stddef.h>
#include <vector>
#include <algorithm>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <utility>
#include <initializer_list>
#include <stdexcept>
#include <tuple>
#include <type_traits>
namespace pybind11 {
typedef long ssize_t_;
class object { public: std::vector<double> v; };
template <class T> inline object cast(const std::vector<T> &a) { object o; o.v.assign(a.begin(), a.end()); return o; }
template <class T> class array_t;

// ---- registration: what a module offers, and calls of it by name with positional and keyword arguments
template <class T> struct type_tag { static char c; };
template <class T> char type_tag<T>::c;
enum kind { NONE, FLOAT, INT, BOOL, STR, INSTANCE, ARRAY };
struct value {
    kind k; double d; long i; std::string s; void *p; const char *type;
    value(): k(NONE), d(0), i(0), p(NULL), type(NULL) {}
    value(double x): k(FLOAT), d(x), i(0), p(NULL), type(NULL) {}
    value(int x): k(INT), d(0), i(x), p(NULL), type(NULL) {}
    value(long x): k(INT), d(0), i(x), p(NULL), type(NULL) {}
    value(unsigned x): k(INT), d(0), i(x), p(NULL), type(NULL) {}
    value(bool x): k(BOOL), d(0), i(x), p(NULL), type(NULL) {}
    value(const char *x): k(STR), d(0), i(0), s(x), p(NULL), type(NULL) {}
    value(const std::string &x): k(STR), d(0), i(0), s(x), p(NULL), type(NULL) {}
};
template <class T> inline value instance(T *p) { value v; v.k = INSTANCE; v.p = p; v.type = &type_tag<T>::c; return v; }
inline bool is_none(const value &v) { return v.k == NONE; }

template <class T, class E = void> struct caster {              // classes are passed by reference to the instance
    T *x;
    caster(): x(NULL) {}
    bool load(const value &v) { x = (T *)v.p; return v.k == INSTANCE && v.type == &type_tag<T>::c; }
    T &get() { return *x; }
    static value give(const T &r) { return instance(new T(r)); }
};
template <class T> struct caster<T, typename std::enable_if<std::is_floating_point<T>::value>::type> {
    T x;
    bool load(const value &v) { x = v.k == FLOAT ? v.d : (double)v.i; return v.k == FLOAT || v.k == INT || v.k == BOOL; }
    T &get() { return x; }
    static value give(T r) { return value((double)r); }
};
template <class T> struct caster<T, typename std::enable_if<std::is_integral<T>::value && !std::is_same<T, bool>::value>::type> {
    T x;
    bool load(const value &v) { x = (T)v.i; return v.k == INT || v.k == BOOL; }
    T &get() { return x; }
    static value give(T r) { return value((long)r); }
};
template <> struct caster<bool, void> {
    bool x;
    bool load(const value &v) { x = v.i != 0; return v.k == BOOL; }
    bool &get() { return x; }
    static value give(bool r) { return value(r); }
};
template <> struct caster<std::string, void> {
    std::string x;
    bool load(const value &v) { x = v.s; return v.k == STR; }
    std::string &get() { return x; }
    static value give(const std::string &r) { return value(r); }
};
template <class T> struct caster<array_t<T>, void> {
    array_t<T> *x;
    bool load(const value &v) { x = (array_t<T> *)v.p; return v.k == ARRAY; }
    array_t<T> &get() { return *x; }
    static value give(const array_t<T> &r) { value v; v.k = ARRAY; v.p = new array_t<T>(r); v.type = &type_tag<array_t<T> >::c; return v; }
};
template <class T> struct plain { typedef typename std::remove_cv<typename std::remove_pointer<typename std::remove_reference<T>::type>::type>::type type; };
template <class P, class T> inline typename std::enable_if<std::is_pointer<P>::value, T *>::type pass(T &x) { return &x; }
template <class P, class T> inline typename std::enable_if<!std::is_pointer<P>::value, T &>::type pass(T &x) { return x; }

template <int...> struct seq {};
template <int N, int... I> struct make_seq: make_seq<N - 1, N - 1, I...> {};
template <int... I> struct make_seq<0, I...> { typedef seq<I...> type; };

template <class R> struct result {
    template <class F> static value of(F f) { return caster<typename plain<R>::type>::give(f()); }
};
template <> struct result<void> { template <class F> static value of(F f) { f(); return value(); } };

struct arg_v;
struct arg {
    std::string name;
    explicit arg(const char *n): name(n) {}
    arg_v operator=(const value &v) const;
    arg &noconvert(bool = true) { return *this; }
    arg &none(bool = true) { return *this; }
};
struct arg_v { std::string name; value v; };
inline arg_v arg::operator=(const value &v) const { arg_v a; a.name = name; a.v = v; return a; }
namespace literals { inline arg operator""_a(const char *n, size_t) { return arg(n); } }
struct gil_scoped_release { gil_scoped_release() {} ~gil_scoped_release() {} };
struct gil_scoped_acquire { gil_scoped_acquire() {} ~gil_scoped_acquire() {} };
template <class... T> struct call_guard {};
template <int A, int B> struct keep_alive {};
struct is_method {}; struct dynamic_attr {}; struct module_local { module_local(bool = true) {} }; struct kw_only {}; struct pos_only {}; struct is_operator {}; struct prepend {};
struct doc { explicit doc(const char *) {} };
enum class return_value_policy { automatic, automatic_reference, take_ownership, copy, move, reference, reference_internal };

struct function {
    std::string name;
    std::vector<arg_v> names;
    std::vector<int> optional;
    size_t count;                           // arguments, without the instance
    function(): count(0) {}
    virtual ~function() {}
    virtual bool call(void *self, const std::vector<value> &a, value &r) = 0;
    void extra(const arg &a) { arg_v v; v.name = a.name; names.push_back(v); optional.push_back(false); }
    void extra(const arg_v &a) { names.push_back(a); optional.push_back(true); }
    template <class T> void extra(const T &) {}
    void extras() {}
    template <class T, class... X> void extras(const T &x, const X &... more) { extra(x); extras(more...); }
};
template <class C, class F, class R, class... A> struct bound: function {
    F f;
    bound(F g): f(g) { count = sizeof...(A); }
    template <int... I> bool run(C *c, const std::vector<value> &a, value &r, seq<I...>)
    {
        std::tuple<caster<typename plain<A>::type>...> t;
        bool ok[] = {true, std::get<I>(t).load(a[I])...};
        for (size_t i = 0; i < sizeof ok / sizeof *ok; i++) if (!ok[i]) return false;
        r = result<R>::of([&]() -> R { return (c->*f)(pass<A>(std::get<I>(t).get())...); });
        return true;
    }
    bool call(void *self, const std::vector<value> &a, value &r) { return run((C *)self, a, r, typename make_seq<sizeof...(A)>::type()); }
};
// a callable that takes the instance first
template <class C, class F, class R, class S, class... A> struct bound_call: function {
    F f;
    bound_call(F g): f(g) { count = sizeof...(A); }
    template <int... I> bool run(C *c, const std::vector<value> &a, value &r, seq<I...>)
    {
        std::tuple<caster<typename plain<A>::type>...> t;
        bool ok[] = {true, std::get<I>(t).load(a[I])...};
        for (size_t i = 0; i < sizeof ok / sizeof *ok; i++) if (!ok[i]) return false;
        r = result<R>::of([&]() -> R { return f(pass<S>(*c), pass<A>(std::get<I>(t).get())...); });
        return true;
    }
    bool call(void *self, const std::vector<value> &a, value &r) { return run((C *)self, a, r, typename make_seq<sizeof...(A)>::type()); }
};
template <class C, class... A> struct bound_init: function {
    bound_init() { count = sizeof...(A); }
    template <int... I> bool run(const std::vector<value> &a, value &r, seq<I...>)
    {
        std::tuple<caster<typename plain<A>::type>...> t;
        bool ok[] = {true, std::get<I>(t).load(a[I])...};
        for (size_t i = 0; i < sizeof ok / sizeof *ok; i++) if (!ok[i]) return false;
        r = instance(new C(pass<A>(std::get<I>(t).get())...));
        return true;
    }
    bool call(void *, const std::vector<value> &a, value &r) { return run(a, r, typename make_seq<sizeof...(A)>::type()); }
};
template <class C> inline C *made(C *p) { return p; }
template <class C> inline C *made(const C &r) { return new C(r); }
template <class C> inline C *made(std::unique_ptr<C> p) { return p.release(); }
template <class C, class F, class R, class... A> struct bound_factory: function {
    F f;
    bound_factory(F g): f(g) { count = sizeof...(A); }
    template <int... I> bool run(const std::vector<value> &a, value &r, seq<I...>)
    {
        std::tuple<caster<typename plain<A>::type>...> t;
        bool ok[] = {true, std::get<I>(t).load(a[I])...};
        for (size_t i = 0; i < sizeof ok / sizeof *ok; i++) if (!ok[i]) return false;
        r = instance(made<C>(f(pass<A>(std::get<I>(t).get())...)));
        return true;
    }
    bool call(void *, const std::vector<value> &a, value &r) { return run(a, r, typename make_seq<sizeof...(A)>::type()); }
};
template <class... A> struct init_ {};
template <class F> struct init_factory { F f; };
template <class... A> inline init_<A...> init() { return init_<A...>(); }
template <class F> inline init_factory<F> init(F f) { init_factory<F> i = {f}; return i; }

struct class_record { std::string name; const char *type; std::vector<function *> functions; class_record(): type(NULL) {} };
struct any_attr { template <class T> any_attr &operator=(const T &) { return *this; } };
struct module_ {
    std::vector<class_record *> classes;
    std::string doc_;
    std::string &doc() { return doc_; }
    any_attr attr(const char *) { return any_attr(); }
    template <class F, class... X> module_ &def(const char *, F, const X &...) { return *this; }
    module_ &def_submodule(const char *, const char * = NULL) { return *this; }
    const class_record *find(const std::string &n) const
    {
        const class_record *r = NULL;
        for (size_t i = 0; i < classes.size(); i++) if (classes[i]->name == n) r = classes[i];
        return r;
    }
};
typedef module_ module;
template <class C, class... Extra> class class_ {
    class_record *rec;
    template <class... X> void put(const char *n, function *f, const X &... x) { f->name = n; f->extras(x...); rec->functions.push_back(f); }
    template <class F, class R, class O, class S, class... A> static function *callable(F f, R (O::*)(S, A...) const) { return new bound_call<C, F, R, S, A...>(f); }
    template <class F, class R, class O, class S, class... A> static function *callable(F f, R (O::*)(S, A...)) { return new bound_call<C, F, R, S, A...>(f); }
    template <class F, class R, class O, class... A> static function *factory(F f, R (O::*)(A...) const) { return new bound_factory<C, F, R, A...>(f); }
public:
    template <class... X> class_(module_ &m, const char *n, const X &...): rec(new class_record)
    {
        rec->name = n; rec->type = &type_tag<C>::c;
        m.classes.push_back(rec);
    }
    template <class R, class B, class... A, class... X> class_ &def(const char *n, R (B::*f)(A...), const X &... x) { put(n, new bound<C, R (B::*)(A...), R, A...>(f), x...); return *this; }
    template <class R, class B, class... A, class... X> class_ &def(const char *n, R (B::*f)(A...) const, const X &... x) { put(n, new bound<C, R (B::*)(A...) const, R, A...>(f), x...); return *this; }
    template <class R, class S, class... A, class... X> class_ &def(const char *n, R (*f)(S, A...), const X &... x) { put(n, new bound_call<C, R (*)(S, A...), R, S, A...>(f), x...); return *this; }
    template <class F, class... X> typename std::enable_if<std::is_class<F>::value, class_ &>::type def(const char *n, F f, const X &... x) { put(n, callable(f, &F::operator()), x...); return *this; }
    template <class... A, class... X> class_ &def(const init_<A...> &, const X &... x) { put("__init__", new bound_init<C, A...>(), x...); return *this; }
    template <class F, class... X> class_ &def(const init_factory<F> &i, const X &... x) { put("__init__", factory(i.f, &F::operator()), x...); return *this; }
    template <class F, class... X> class_ &def_static(const char *, F, const X &...) { return *this; }
    template <class F, class... X> class_ &def_readwrite(const char *, F, const X &...) { return *this; }
    template <class F, class... X> class_ &def_readonly(const char *, F, const X &...) { return *this; }
    template <class F, class... X> class_ &def_property_readonly(const char *, F, const X &...) { return *this; }
    template <class F, class G, class... X> class_ &def_property(const char *, F, G, const X &...) { return *this; }
    any_attr attr(const char *) { return any_attr(); }
};
// a call as the interpreter makes it: overloads in order, positional arguments, then keywords, then defaults
typedef std::vector<std::pair<std::string, value> > keywords;
inline bool call(const class_record *c, const std::string &name, void *self, const std::vector<value> &pos, const keywords &kw, value &r)
{
    for (size_t i = 0; c && i < c->functions.size(); i++) {
        function *f = c->functions[i];
        if (f->name != name || pos.size() > f->count) continue;
        std::vector<value> a(pos);
        size_t used = 0;
        bool ok = f->names.empty() || f->names.size() == f->count;
        for (size_t j = pos.size(); ok && j < f->count; j++) {
            bool have = false;
            if (j < f->names.size()) {
                for (size_t k = 0; k < kw.size(); k++) if (kw[k].first == f->names[j].name) { a.push_back(kw[k].second); used++; have = true; }
                if (!have && f->optional[j]) { a.push_back(f->names[j].v); have = true; }
            }
            ok = have;
        }
        if (ok && used == kw.size() && f->call(self, a, r)) return true;
    }
    return false;
}
}
#define PYBIND11_MODULE(n, m) static void pybind_##n(::pybind11::module_ &m); void vf_import_##n(::pybind11::module_ &m) { pybind_##n(m); } static void pybind_##n(::pybind11::module_ &m)
