// model of the part of the HDF5 C++ interface the code uses: an in-memory tree of groups and sets of doubles.
// A missing parent, an existing name or a missing file throws, as in the library.
#pragma once
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <string>
#include <vector>
typedef unsigned long long hsize_t;
typedef long long hid_t;
typedef int herr_t;
typedef int htri_t;
#define H5F_ACC_RDONLY 0u
#define H5F_ACC_RDWR 1u
#define H5F_ACC_TRUNC 2u
#define H5F_ACC_EXCL 4u
#define H5P_DEFAULT 0
#define H5E_BEGIN_TRY {
#define H5E_END_TRY }
extern "C" void vf_file(const char *name, const char *text);
namespace H5 {
typedef std::string H5std_string;
class Exception {
    std::string m_f, m_m;
public:
    Exception(const std::string &f = "", const std::string &m = "") : m_f(f), m_m(m) {}
    virtual ~Exception() {}
    std::string getFuncName() const { return m_f; }
    std::string getDetailMsg() const { return m_m; }
    const char *getCFuncName() const { return m_f.c_str(); }
    const char *getCDetailMsg() const { return m_m.c_str(); }
    static void dontPrint() {}
};
class FileIException : public Exception { public: FileIException(const std::string &f, const std::string &m) : Exception(f, m) {} };
class GroupIException : public Exception { public: GroupIException(const std::string &f, const std::string &m) : Exception(f, m) {} };
class DataSetIException : public Exception { public: DataSetIException(const std::string &f, const std::string &m) : Exception(f, m) {} };

struct Node { std::string path; bool group; int rank; hsize_t dim[4]; double *data; size_t n; };
struct Store { std::string name; int open; std::vector<Node *> nodes; };
inline std::vector<Store *> &stores() { static std::vector<Store *> *s = new std::vector<Store *>; return *s; }
inline void reset()
{
    for (size_t i = 0; i < stores().size(); i++) {
        for (size_t j = 0; j < stores()[i]->nodes.size(); j++) { delete[] stores()[i]->nodes[j]->data; delete stores()[i]->nodes[j]; }
        delete stores()[i];
    }
    std::vector<Store *>().swap(stores());
}
inline Store *store(const std::string &name)
{
    for (size_t i = 0; i < stores().size(); i++) if (stores()[i]->name == name) return stores()[i];
    return NULL;
}
inline std::string normal(const std::string &p)
{
    std::string r, c;
    for (size_t i = 0; i <= p.size(); i++) {
        if (i < p.size() && p[i] != '/') { c += p[i]; continue; }
        if (!c.empty() && c != ".") { if (!r.empty()) r += '/'; r += c; }
        c.clear();
    }
    return r;
}
inline Node *find(Store *s, const std::string &p)
{
    for (size_t i = 0; i < s->nodes.size(); i++) if (s->nodes[i]->path == p) return s->nodes[i];
    return NULL;
}
inline bool there(Store *s, const std::string &p) { return p.empty() || find(s, p); }
inline Node *make(Store *s, const std::string &path, bool group)
{
    if (path.empty() || find(s, path)) return NULL;
    size_t k = path.rfind('/');
    if (k != std::string::npos) { Node *up = find(s, path.substr(0, k)); if (!up || !up->group) return NULL; }
    Node *n = new Node; n->path = path; n->group = group; n->rank = 0; n->data = NULL; n->n = 0;
    s->nodes.push_back(n);
    return n;
}
class DataType {};
class PredType : public DataType { public: static const PredType NATIVE_DOUBLE, IEEE_F64LE; };
__attribute__((weak)) const PredType PredType::NATIVE_DOUBLE = PredType(), PredType::IEEE_F64LE = PredType();
class DataSpace {
public:
    int rank; hsize_t dim[4];
    DataSpace(int r, const hsize_t *d, const hsize_t * = NULL) : rank(r) { for (int i = 0; i < r; i++) dim[i] = d[i]; }
};
class DataSet {
    Node *m_n;
public:
    DataSet(Node *n = NULL) : m_n(n) {}
    void write(const void *b, const DataType &) const { if (m_n->n) memcpy(m_n->data, b, m_n->n * sizeof(double)); }
    void close() {}
};
class Group;
class Location {
protected:
    Store *m_s; std::string m_p;
    std::string full(const std::string &p) const { return normal(p.size() && p[0] == '/' ? p : m_p + "/" + p); }
public:
    Location(Store *s = NULL, const std::string &p = "") : m_s(s), m_p(p) {}
    hid_t getId() const { for (size_t i = 0; i < stores().size(); i++) if (stores()[i] == m_s) return i + 1; return -1; }
    Group createGroup(const std::string &p, size_t = 0) const;
    Group openGroup(const std::string &p) const;
    bool nameExists(const std::string &p) const { return there(m_s, full(p)); }
    bool exists(const std::string &p) const { return there(m_s, full(p)); }
    DataSet createDataSet(const std::string &p, const DataType &, const DataSpace &d) const
    {
        Node *n = make(m_s, full(p), false);
        if (!n) throw FileIException("H5File::createDataSet", p);
        n->rank = d.rank; n->n = 1;
        for (int i = 0; i < d.rank; i++) { n->dim[i] = d.dim[i]; n->n *= d.dim[i]; }
        n->data = n->n ? new double[n->n]() : NULL;
        return DataSet(n);
    }
};
class Group : public Location { public: Group(Store *s = NULL, const std::string &p = "") : Location(s, p) {} void close() {} };
inline Group Location::createGroup(const std::string &p, size_t) const
{
    Node *n = make(m_s, full(p), true);
    if (!n) throw FileIException("H5File::createGroup", p);
    return Group(m_s, n->path);
}
inline Group Location::openGroup(const std::string &p) const
{
    std::string q = full(p);
    Node *n = find(m_s, q);
    if (!q.empty() && (!n || !n->group)) throw FileIException("H5File::openGroup", p);
    return Group(m_s, q);
}
class H5File : public Location {
    H5File(const H5File &);
    H5File &operator=(const H5File &);
public:
    H5File(const std::string &name, unsigned flags)
    {
        m_s = store(name);
        if (flags & H5F_ACC_EXCL) { if (m_s) throw FileIException("H5File constructor", name); }
        if (flags & (H5F_ACC_TRUNC | H5F_ACC_EXCL)) {
            if (m_s && m_s->open) throw FileIException("H5File constructor", name);
            if (!m_s) { m_s = new Store; m_s->name = name; m_s->open = 0; stores().push_back(m_s); vf_file(name.c_str(), "HDF"); }
            for (size_t j = 0; j < m_s->nodes.size(); j++) { delete[] m_s->nodes[j]->data; delete m_s->nodes[j]; }
            m_s->nodes.clear();
        } else if (!m_s) throw FileIException("H5File constructor", name);
        m_s->open++;
    }
    static bool isHdf5(const std::string &name) { if (!store(name)) throw FileIException("H5File::isHdf5", name); return true; }
    ~H5File() { close(); }
    void close() { if (m_s) m_s->open--; m_s = NULL; }
};
}
struct H5G_stat_t { int type; };
inline herr_t H5Gget_objinfo(hid_t id, const char *name, int, H5G_stat_t *) { return H5::there(H5::stores()[id - 1], H5::normal(name)) ? 0 : -1; }
inline htri_t H5Lexists(hid_t id, const char *name, hid_t) { return H5::there(H5::stores()[id - 1], H5::normal(name)) ? 1 : 0; }
inline htri_t H5Oexists_by_name(hid_t id, const char *name, hid_t) { return H5Lexists(id, name, 0); }
inline htri_t H5Fis_hdf5(const char *name) { return H5::store(name) ? 1 : -1; }
