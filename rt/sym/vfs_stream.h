// in-memory streams for symbolic execution (same behaviour as the real ones for the operations provided)
#pragma once
#include <string>
#include <iosfwd>
#include <cstdlib>
#include <cstring>
#include "vf.h"
namespace std {
typedef long streamsize_;
class ios_base {
public:
    typedef int openmode; typedef int fmtflags; typedef int iostate; typedef int seekdir;
    static const int in = 1, out = 2, trunc = 4, app = 8, ate = 16, binary = 32;
    static const int fixed = 1, scientific = 2, left = 4, right = 8, floatfield = 16, boolalpha = 32;
    static const int goodbit = 0, eofbit = 1, failbit = 2, badbit = 4, beg = 0, cur = 1, end = 2;
    static bool sync_with_stdio(bool = true) { return true; }
    class failure {};
};
class vfs_ios : public ios_base {
public:
    int st;
    vfs_ios() : st(0) {}
    bool good() const { return st == 0; }
    bool eof() const { return st & eofbit; }
    bool fail() const { return st & (failbit | badbit); }
    bool bad() const { return st & badbit; }
    void clear(int s = 0) { st = s; }
    void setstate(int s) { st |= s; }
    int rdstate() const { return st; }
    bool operator!() const { return fail(); }
    explicit operator bool() const { return !fail(); }
    long precision(long = 6) { return 6; }
    long width(long = 0) { return 0; }
    int setf(int, int = 0) { return 0; }
    int flags(int = 0) { return 0; }
    void unsetf(int) {}
    void exceptions(int) {}
    vfs_ios *tie(vfs_ios * = 0) { return 0; }
};
template <class C, class T> class basic_ios : public vfs_ios {};
template <class C, class T> class basic_ostream : virtual public vfs_ios {
public:
    std::string *sink;
    basic_ostream() : sink(0) {}
    virtual ~basic_ostream() {}
    void put_(const char *s) { if (sink) *sink += s; }
    basic_ostream &operator<<(const char *s) { put_(s); return *this; }
    basic_ostream &operator<<(char *s) { put_(s); return *this; }
    basic_ostream &operator<<(char c) { if (sink) *sink += c; return *this; }
    basic_ostream &operator<<(bool b) { put_(b ? "1" : "0"); return *this; }
    basic_ostream &num_(unsigned long v, bool neg) {
        if (!sink) return *this;
        char b[32]; int n = 32; b[--n] = 0;
        do { b[--n] = '0' + v % 10; v /= 10; } while (v);
        if (neg) b[--n] = '-';
        put_(b + n); return *this;
    }
    basic_ostream &operator<<(int v) { return num_(v < 0 ? -(long)v : v, v < 0); }
    basic_ostream &operator<<(long v) { return num_(v < 0 ? -(unsigned long)v : v, v < 0); }
    basic_ostream &operator<<(long long v) { return *this << (long)v; }
    basic_ostream &operator<<(short v) { return *this << (int)v; }
    basic_ostream &operator<<(unsigned v) { return num_(v, false); }
    basic_ostream &operator<<(unsigned long v) { return num_(v, false); }
    basic_ostream &operator<<(unsigned long long v) { return num_(v, false); }
    basic_ostream &operator<<(double v) { if (sink) put_(vf_num(v)); return *this; }
    basic_ostream &operator<<(float v) { return *this << (double)v; }
    basic_ostream &operator<<(const void *) { return *this; }
    basic_ostream &operator<<(basic_ostream &(*f)(basic_ostream &)) { return f(*this); }
    basic_ostream &operator<<(vfs_ios &(*f)(vfs_ios &)) { f(*this); return *this; }
    basic_ostream &operator<<(ios_base &(*f)(ios_base &)) { f(*this); return *this; }
    basic_ostream &put(char c) { return *this << c; }
    basic_ostream &write(const char *s, long n) { if (sink) sink->append(s, n); return *this; }
    basic_ostream &flush() { return *this; }
};
inline ostream &operator<<(ostream &o, const std::string &s) { if (o.sink) *o.sink += s; return o; }
template <class C, class T> basic_ostream<C, T> &endl(basic_ostream<C, T> &o) { return o << '\n'; }
template <class C, class T> basic_ostream<C, T> &flush(basic_ostream<C, T> &o) { return o; }
template <class C, class T> basic_ostream<C, T> &ends(basic_ostream<C, T> &o) { return o << '\0'; }
inline ios_base &fixed(ios_base &b) { return b; }
inline ios_base &scientific(ios_base &b) { return b; }
inline ios_base &left(ios_base &b) { return b; }
inline ios_base &right(ios_base &b) { return b; }
inline ios_base &boolalpha(ios_base &b) { return b; }
inline ios_base &noboolalpha(ios_base &b) { return b; }
inline ios_base &hex(ios_base &b) { return b; }
inline ios_base &dec(ios_base &b) { return b; }
inline ios_base &showpos(ios_base &b) { return b; }
struct vfs_manip {};
inline vfs_manip setprecision(int) { return vfs_manip(); }
inline vfs_manip setw(int) { return vfs_manip(); }
inline vfs_manip setfill(char) { return vfs_manip(); }
inline vfs_manip setiosflags(int) { return vfs_manip(); }
inline ostream &operator<<(ostream &o, vfs_manip) { return o; }

template <class C, class T> class basic_istream : virtual public vfs_ios {
public:
    std::string buf; size_t pos;
    basic_istream() : pos(0) {}
    virtual ~basic_istream() {}
    bool ws_() {
        if (st) { st |= failbit; return false; }
        while (pos < buf.size() && (buf[pos] == ' ' || (buf[pos] >= 9 && buf[pos] <= 13))) pos++;
        if (pos >= buf.size()) { st |= eofbit | failbit; return false; }
        return true;
    }
    basic_istream &operator>>(double &v) {
        if (!ws_()) { if (!(st & badbit)) v = 0; return *this; }
        size_t e = vf_scan(buf.data(), pos, buf.size(), &v);
        if (e) { pos = e; if (e >= buf.size()) st |= eofbit; return *this; }
        e = pos;
        bool exp = false, dot = false, dig = false;
        while (e < buf.size()) {
            char c = buf[e];
            if (c >= '0' && c <= '9') dig = true;
            else if (c == '.' && !dot && !exp) dot = true;
            else if ((c == 'e' || c == 'E') && !exp && dig) exp = true;
            else if ((c == '+' || c == '-') && (e == pos || buf[e - 1] == 'e' || buf[e - 1] == 'E')) {}
            else break;
            e++;
        }
        std::string t(buf, pos, e - pos);
        char *q;
        double r = vf_strtod(t.c_str(), &q);
        pos = e;
        if (e >= buf.size()) st |= eofbit;
        if (t.empty() || *q) { v = 0; st |= failbit; } else v = r;
        return *this;
    }
    basic_istream &operator>>(float &v) { double d; *this >> d; v = d; return *this; }
    template <class I> basic_istream &int_(I &v, bool sg) {
        if (!ws_()) { v = 0; return *this; }
        bool neg = false; size_t e = pos;
        if (buf[e] == '-' || buf[e] == '+') { neg = buf[e] == '-'; e++; }
        unsigned long r = 0; bool dig = false;
        while (e < buf.size() && buf[e] >= '0' && buf[e] <= '9') { r = r * 10 + (buf[e] - '0'); dig = true; e++; }
        pos = e;
        if (e >= buf.size()) st |= eofbit;
        if (!dig) { v = 0; st |= failbit; } else v = (I)(neg ? -(long)r : (long)r);
        return *this;
    }
    basic_istream &operator>>(int &v) { return int_(v, true); }
    basic_istream &operator>>(long &v) { return int_(v, true); }
    basic_istream &operator>>(unsigned &v) { return int_(v, false); }
    basic_istream &operator>>(unsigned long &v) { return int_(v, false); }
    basic_istream &operator>>(bool &v) { int i; int_(i, true); v = i; return *this; }
    basic_istream &operator>>(char &c) { if (ws_()) c = buf[pos++]; return *this; }
    basic_istream &operator>>(std::string &s) {
        s.clear();
        if (!ws_()) return *this;
        while (pos < buf.size() && !(buf[pos] == ' ' || (buf[pos] >= 9 && buf[pos] <= 13))) s += buf[pos++];
        if (pos >= buf.size()) st |= eofbit;
        return *this;
    }
    int get() { if (st || pos >= buf.size()) { st |= eofbit | failbit; return -1; } return (unsigned char)buf[pos++]; }
    basic_istream &get(char &c) { int i = get(); if (i >= 0) c = i; return *this; }
    int peek() { if (st) return -1; if (pos >= buf.size()) { st |= eofbit; return -1; } return (unsigned char)buf[pos]; }
    basic_istream &ignore(long n = 1, int d = -1) { while (n-- > 0 && pos < buf.size()) if (buf[pos++] == d) break; return *this; }
    basic_istream &seekg(long p) { st &= ~eofbit; pos = p; return *this; }
    long tellg() { return fail() ? -1 : (long)pos; }
};
inline istream &getline(istream &i, std::string &s, char d = '\n') {
    s.clear();
    if (i.st) { i.st |= ios_base::failbit; return i; }
    if (i.pos >= i.buf.size()) { i.st |= ios_base::eofbit | ios_base::failbit; return i; }
    while (i.pos < i.buf.size()) { char c = i.buf[i.pos++]; if (c == d) return i; s += c; }
    i.st |= ios_base::eofbit;
    return i;
}
template <class C, class T> class basic_iostream : public basic_istream<C, T>, public basic_ostream<C, T> {};
_GLIBCXX_BEGIN_NAMESPACE_CXX11
template <class C, class T, class A> class basic_ostringstream : public basic_ostream<C, T> {
    std::string data;
public:
    basic_ostringstream() { this->sink = &data; }
    explicit basic_ostringstream(int) { this->sink = &data; }
    explicit basic_ostringstream(const std::string &s, int = 0) : data(s) { this->sink = &data; }
    std::string str() const { return data; }
    void str(const std::string &s) { data = s; }
};
template <class C, class T, class A> class basic_istringstream : public basic_istream<C, T> {
public:
    basic_istringstream() {}
    explicit basic_istringstream(const std::string &s, int = 0) { this->buf = s; }
    std::string str() const { return this->buf; }
    void str(const std::string &s) { this->buf = s; this->pos = 0; }
};
template <class C, class T, class A> class basic_stringstream : public basic_iostream<C, T> {
public:
    basic_stringstream() { this->sink = &this->buf; }
    explicit basic_stringstream(int) { this->sink = &this->buf; }
    explicit basic_stringstream(const std::string &s, int = 0) { this->buf = s; this->sink = &this->buf; }
    std::string str() const { return this->buf; }
    void str(const std::string &s) { this->buf = s; this->pos = 0; }
};
_GLIBCXX_END_NAMESPACE_CXX11
template <class C, class T> class basic_ifstream : public basic_istream<C, T> {
    bool op;
public:
    basic_ifstream() : op(false) {}
    explicit basic_ifstream(const char *n, int = 0) : op(false) { open(n); }
    explicit basic_ifstream(const std::string &n, int = 0) : op(false) { open(n.c_str()); }
    void open(const char *n, int = 0) {
        size_t l; const char *d = vf_file_get(n, &l);
        if (!d) { this->st |= ios_base::failbit; return; }
        this->buf.assign(d, l); this->pos = 0; op = true;
    }
    void open(const std::string &n, int = 0) { open(n.c_str()); }
    bool is_open() const { return op; }
    void close() { if (!op) this->st |= ios_base::failbit; op = false; }
};
template <class C, class T> class basic_ofstream : public basic_ostream<C, T> {
    bool op; std::string name, data;
public:
    basic_ofstream() : op(false) {}
    explicit basic_ofstream(const char *n, int m = 0) : op(false) { open(n, m); }
    explicit basic_ofstream(const std::string &n, int m = 0) : op(false) { open(n.c_str(), m); }
    void open(const char *n, int m = 0) {
        name = n; op = true; data.clear(); this->sink = &data;
        if (!(m & (ios_base::app | ios_base::ate)) || (m & ios_base::trunc)) return;
        if (!(m & (ios_base::app | ios_base::in))) return;
        size_t l; const char *d = vf_file_get(n, &l);
        if (d) data.assign(d, l);
    }
    void open(const std::string &n, int m = 0) { open(n.c_str(), m); }
    bool is_open() const { return op; }
    void close() { if (op) vf_file(name.c_str(), data.c_str()); op = false; this->sink = 0; }
    ~basic_ofstream() { close(); }
};
static ostream cout, cerr, clog;
static istream cin;
}
