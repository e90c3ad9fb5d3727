// model of the part of MPI the code uses. The harness runs the ranks one after the other, rank 0 last; messages of
// rank 0's partners wait in a queue. Which of several matching messages a wildcard receive gets is left open.
// Barriers order the messages: one sent after a barrier is not there before the receiver reached that barrier too.
#pragma once
#include <stddef.h>
#include <string.h>
#include <vector>
#include "vf.h"
typedef int MPI_Comm;
typedef int MPI_Datatype;
typedef int MPI_Op;
typedef int MPI_Request;
#define MPI_COMM_WORLD 0
#define MPI_SUCCESS 0
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG (-1)
#define MPI_UNDEFINED (-32766)
#define MPI_DOUBLE 0x108
#define MPI_INT 0x204
#define MPI_UNSIGNED 0x304
#define MPI_LONG 0x408
#define MPI_UNSIGNED_LONG 0x508
#define MPI_FLOAT 0x604
#define MPI_CHAR 0x701
#define MPI_BYTE 0x801
#define MPI_UNSIGNED_LONG_LONG 0x908
#define MPI_LONG_LONG 0xa08
#define MPI_SUM 1
#define MPI_MAX 2
#define MPI_IN_PLACE ((void *)1)
struct MPI_Status { int MPI_SOURCE, MPI_TAG, MPI_ERROR; size_t bytes; };
#define MPI_STATUS_IGNORE ((MPI_Status *)0)
namespace mpi {
struct Msg { int from, to, tag, type, epoch; bool blocking; std::vector<char> raw; std::vector<double> num; size_t n; };
struct World { int rank, size; std::vector<Msg *> q; int barriers[32]; int inited, done; };
// 0: every order of arrival at a wildcard receive; otherwise the one that was sent first (1) or last (-1)
inline int &orderly() { static int o; return o; }
inline World &w() { static World *p = new World(); return *p; }
inline void start(int size) { w().size = size; w().rank = 0; for (int i = 0; i < 32; i++) w().barriers[i] = 0; for (size_t i = 0; i < w().q.size(); i++) delete w().q[i]; std::vector<Msg *>().swap(w().q); }
inline void as(int rank) { w().rank = rank; }
inline size_t size(int t) { return t & 0xff; }
inline void post(const void *b, int n, int type, int to, int tag, bool blocking)
{
    vf_assert(n >= 0, "no message of negative size");
    vf_assert(to >= 0 && to < w().size && to != w().rank, "every message has another process as its destination");
    Msg *m = new Msg;
    m->from = w().rank; m->to = to; m->tag = tag; m->type = type; m->n = n; m->epoch = w().barriers[w().rank]; m->blocking = blocking;
    if (type == MPI_DOUBLE) m->num.assign((const double *)b, (const double *)b + n);
    else m->raw.assign((const char *)b, (const char *)b + n * size(type));
    w().q.push_back(m);
}
inline bool fits(const Msg *m, int from, int tag)
{
    return m->to == w().rank && (from == MPI_ANY_SOURCE || m->from == from) && (tag == MPI_ANY_TAG ? m->tag >= 0 : m->tag == tag) && m->epoch <= w().barriers[w().rank];
}
// the message a receive gets: the first of its sender, of any sender under the wildcard
inline int match(int from, int tag)
{
    std::vector<int> can;
    for (size_t i = 0; i < w().q.size(); i++) {
        if (!fits(w().q[i], from, tag)) continue;
        bool first = true;
        for (size_t j = 0; j < can.size(); j++) if (w().q[can[j]]->from == w().q[i]->from) first = false;
        if (first) can.push_back(i);
    }
    if (can.empty()) { vf_assert(0, "no process waits for a message that is never sent"); vf_assume(0); }
    if (orderly()) return orderly() > 0 ? can[0] : can.back();
    return can[can.size() > 1 ? vf_choice("arrival", can.size()) : 0];
}
inline void tell(MPI_Status *s, const Msg *m)
{
    if (!s) return;
    s->MPI_SOURCE = m->from; s->MPI_TAG = m->tag; s->MPI_ERROR = 0; s->bytes = m->n * size(m->type);
}
inline void take(void *b, int n, int type, int from, int tag, MPI_Status *s)
{
    int i = match(from, tag);
    Msg *m = w().q[i];
    // a blocking send of data may wait for its receive: later data must not be asked for first
    if (m->type == MPI_DOUBLE) for (int j = 0; j < i; j++)
        vf_assert(!(w().q[j]->from == m->from && w().q[j]->to == m->to && w().q[j]->blocking && w().q[j]->type == MPI_DOUBLE && w().q[j]->n > 0 && m->blocking),
            "data is received in the order it is sent");
    bool same = (m->type == MPI_DOUBLE) == (type == MPI_DOUBLE) && size(m->type) == size(type);
    vf_assert(same, "a message is received as the type it was sent as");
    bool fits = n >= 0 && m->n <= (size_t)n;
    vf_assert(fits, "no message is longer than the buffer it is received into");
    if (!same || !fits) vf_assume(0);
    if (type == MPI_DOUBLE) for (size_t k = 0; k < m->n; k++) ((double *)b)[k] = m->num[k];
    else for (size_t k = 0; k < m->raw.size(); k++) ((char *)b)[k] = m->raw[k];
    tell(s, m);
    delete m;
    w().q.erase(w().q.begin() + i);
}
inline void end()
{
    vf_assert(w().q.empty(), "no message is lost");
    for (int i = 1; i < w().size; i++) vf_assert(w().barriers[i] == w().barriers[0], "every process passes the same barriers");
}
}
inline int MPI_Init(int *, char ***) { mpi::w().inited++; return 0; }
inline int MPI_Finalize() { mpi::w().done++; return 0; }
inline int MPI_Comm_rank(MPI_Comm, int *r) { *r = mpi::w().rank; return 0; }
inline int MPI_Comm_size(MPI_Comm, int *n) { *n = mpi::w().size; return 0; }
inline int MPI_Barrier(MPI_Comm) { mpi::w().barriers[mpi::w().rank]++; return 0; }
inline int MPI_Send(const void *b, int n, MPI_Datatype t, int to, int tag, MPI_Comm) { mpi::post(b, n, t, to, tag, true); return 0; }
inline int MPI_Ssend(const void *b, int n, MPI_Datatype t, int to, int tag, MPI_Comm) { mpi::post(b, n, t, to, tag, true); return 0; }
inline int MPI_Bsend(const void *b, int n, MPI_Datatype t, int to, int tag, MPI_Comm) { mpi::post(b, n, t, to, tag, false); return 0; }
inline int MPI_Isend(const void *b, int n, MPI_Datatype t, int to, int tag, MPI_Comm, MPI_Request *) { mpi::post(b, n, t, to, tag, false); return 0; }
inline int MPI_Wait(MPI_Request *, MPI_Status *) { return 0; }
inline int MPI_Waitall(int, MPI_Request *, MPI_Status *) { return 0; }
inline int MPI_Recv(void *b, int n, MPI_Datatype t, int from, int tag, MPI_Comm, MPI_Status *s) { mpi::take(b, n, t, from, tag, s); return 0; }
inline int MPI_Probe(int from, int tag, MPI_Comm, MPI_Status *s) { mpi::tell(s, mpi::w().q[mpi::match(from, tag)]); return 0; }
inline int MPI_Get_count(const MPI_Status *s, MPI_Datatype t, int *n)
{
    *n = s->bytes % mpi::size(t) ? MPI_UNDEFINED : (int)(s->bytes / mpi::size(t));
    return 0;
}
// collectives towards rank 0: the partners' parts wait under negative tags
inline int MPI_Gather(const void *b, int n, MPI_Datatype t, void *r, int rn, MPI_Datatype rt, int root, MPI_Comm)
{
    if (mpi::w().rank != root) { mpi::post(b, n, t, root, -100, false); return 0; }
    char *o = (char *)r;
    for (int i = 0; i < mpi::w().size; i++, o += rn * mpi::size(rt)) {
        if (i != root) mpi::take(o, rn, rt, i, -100, NULL);
        else if (b != MPI_IN_PLACE) { if (t == MPI_DOUBLE) for (int k = 0; k < n; k++) ((double *)o)[k] = ((const double *)b)[k]; else memcpy(o, b, n * mpi::size(t)); }
    }
    return 0;
}
inline int MPI_Gatherv(const void *b, int n, MPI_Datatype t, void *r, const int *rn, const int *at, MPI_Datatype rt, int root, MPI_Comm)
{
    if (mpi::w().rank != root) { mpi::post(b, n, t, root, -200, false); return 0; }
    for (int i = 0; i < mpi::w().size; i++) {
        char *o = (char *)r + at[i] * mpi::size(rt);
        if (i != root) mpi::take(o, rn[i], rt, i, -200, NULL);
        else if (b != MPI_IN_PLACE) { if (t == MPI_DOUBLE) for (int k = 0; k < n; k++) ((double *)o)[k] = ((const double *)b)[k]; else memcpy(o, b, n * mpi::size(t)); }
    }
    return 0;
}
inline int MPI_Reduce(const void *b, void *r, int n, MPI_Datatype t, MPI_Op, int root, MPI_Comm)
{
    if (mpi::w().rank != root) { mpi::post(b, n, t, root, -300, false); return 0; }
    if (b != MPI_IN_PLACE) for (int k = 0; k < n; k++) { if (t == MPI_DOUBLE) ((double *)r)[k] = ((const double *)b)[k]; else ((int *)r)[k] = ((const int *)b)[k]; }
    for (int i = 0; i < mpi::w().size; i++) {
        if (i == root) continue;
        if (t == MPI_DOUBLE) { double *x = new double[n]; mpi::take(x, n, t, i, -300, NULL); for (int k = 0; k < n; k++) ((double *)r)[k] += x[k]; delete[] x; }
        else { int *x = new int[n]; mpi::take(x, n, t, i, -300, NULL); for (int k = 0; k < n; k++) ((int *)r)[k] += x[k]; delete[] x; }
    }
    return 0;
}
