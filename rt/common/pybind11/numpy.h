#pragma once
#include "pybind11.h"
namespace pybind11 {
struct shape_arg {
    std::vector<long> d;
    shape_arg(std::initializer_list<long> l) : d(l) {}
    shape_arg(std::initializer_list<int> l) : d(l.begin(), l.end()) {}
    shape_arg(std::initializer_list<unsigned long> l) : d(l.begin(), l.end()) {}
    shape_arg(const std::vector<long> &l) : d(l) {}
    shape_arg(const std::vector<unsigned long> &l) : d(l.begin(), l.end()) {}
    long count() const { long n = 1; for (size_t i = 0; i < d.size(); i++) n *= d[i]; return n; }
};
template <class T> class array_t {
    std::vector<T> m_v; std::vector<long> m_d;
public:
    array_t() { m_d.push_back(0); }
    array_t(const object &o) : m_v(o.v) { m_d.push_back(m_v.size()); }
    explicit array_t(long n, const T *p = NULL) : m_v(n) { m_d.push_back(n); for (long i = 0; p && i < n; i++) m_v[i] = p[i]; }
    array_t(const shape_arg &s, const T *p = NULL) : m_v(s.count()), m_d(s.d) { for (size_t i = 0; p && i < m_v.size(); i++) m_v[i] = p[i]; }
    void resize(const shape_arg &s, bool = true) { m_v.resize(s.count()); m_d = s.d; }
    array_t reshape(const shape_arg &s) { if (s.count() != (long)m_v.size()) throw std::runtime_error("reshape"); array_t r(*this); r.m_d = s.d; return r; }
    long ndim() const { return m_d.size(); }
    long shape(long i) const { return m_d[i]; }
    long size() const { return m_v.size(); }
    const T *data() const { return m_v.data(); }
    T *mutable_data() { return m_v.data(); }
    T &mutable_at(long i) { return m_v[i]; }
    T &mutable_at(long i, long j) { return m_v[i * m_d[1] + j]; }
    const T &at(long i, long j) const { return m_v[i * m_d[1] + j]; }
};
}
