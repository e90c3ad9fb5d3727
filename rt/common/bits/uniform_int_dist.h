// contract stub (see ../random): also reached through <algorithm>
#ifndef _GLIBCXX_BITS_UNIFORM_INT_DIST_H
#define _GLIBCXX_BITS_UNIFORM_INT_DIST_H
namespace std {
template <class T = int> class uniform_int_distribution {
    T lo, hi;
public:
    typedef T result_type;
    struct param_type {
        T lo, hi;
        typedef uniform_int_distribution<T> distribution_type;
        explicit param_type(T a = 0, T b = 100) : lo(a), hi(b) {}
        T a() const { return lo; } T b() const { return hi; }
    };
    explicit uniform_int_distribution(T a = 0, T b = 100) : lo(a), hi(b) {}
    explicit uniform_int_distribution(const param_type &p) : lo(p.lo), hi(p.hi) {}
    template <class G> T operator()(G &g, const param_type &p)
    {
        T v = p.lo + (T)((double)(p.hi - p.lo + 1) * g.u01());
        return v > p.hi ? p.hi : v;
    }
    template <class G> T operator()(G &g) { return (*this)(g, param_type(lo, hi)); }
    T a() const { return lo; } T b() const { return hi; } void reset() {}
};
}
#endif
