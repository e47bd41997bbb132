// Entry states for the element-wise buffer operations of the ring.
// Every element is an arbitrary field element; lengths cover: empty, shorter
// than a vector, each unroll count and each remainder class.
#include "qa.h"
#include "quadiron.h"
#include "gf_prime.h"
#include "gf_ring.h"
#include "vec_vector.h"
#include "vec_buffers.h"
using namespace quadiron;

template <typename T>
static T* buf(size_t len, uint64_t q, const char* name)
{
    // one guard-free region of exactly len elements: any access outside is
    // reported by the analyser
    T* p = static_cast<T*>(qa_buf(len * sizeof(T), name));
    qa_fill(p, len, sizeof(T), 0, q - 1, name);
    return p;
}

template <typename T>
static const gf::RingModN<T>& field(uint64_t q)
{
    static gf::Prime<T> f = gf::create<gf::Prime<T>>(T(q));
    return f;
}

template <typename T>
static void op_add(uint64_t q, size_t len)
{
    const gf::RingModN<T>& f = field<T>(q);
    T* a = buf<T>(len, q, "a");
    T* b = buf<T>(len, q, "b");
    T* b0 = static_cast<T*>(qa_buf(len * sizeof(T), "b0"));
    for (size_t i = 0; i < len; ++i)
        b0[i] = b[i];
    uint64_t sa = qa_snap(a, len * sizeof(T));
    f.add_two_bufs(a, b, len);
    for (size_t i = 0; i < len; ++i)
        qa_lin(b[i], q, QA_ADD, a[i], b0[i], 0, "add_two_bufs");
    qa_unchanged(a, len * sizeof(T), sa, "add_two_bufs: source modified");
    qa_done();
}

template <typename T>
static void op_sub(uint64_t q, size_t len)
{
    const gf::RingModN<T>& f = field<T>(q);
    T* a = buf<T>(len, q, "a");
    T* b = buf<T>(len, q, "b");
    T* r = static_cast<T*>(qa_buf(len * sizeof(T), "r"));
    uint64_t sa = qa_snap(a, len * sizeof(T));
    uint64_t sb = qa_snap(b, len * sizeof(T));
    f.sub_two_bufs(a, b, r, len);
    for (size_t i = 0; i < len; ++i)
        qa_lin(r[i], q, QA_SUB, a[i], b[i], 0, "sub_two_bufs");
    qa_unchanged(a, len * sizeof(T), sa, "sub_two_bufs: source modified");
    qa_unchanged(b, len * sizeof(T), sb, "sub_two_bufs: source modified");
    qa_done();
}

template <typename T>
static void op_neg(uint64_t q, size_t len)
{
    const gf::RingModN<T>& f = field<T>(q);
    T* a = buf<T>(len, q, "a");
    T* a0 = static_cast<T*>(qa_buf(len * sizeof(T), "a0"));
    for (size_t i = 0; i < len; ++i)
        a0[i] = a[i];
    f.neg(len, a);
    for (size_t i = 0; i < len; ++i)
        qa_lin(a[i], q, QA_NEG, a0[i], 0, 0, "neg");
    qa_done();
}

template <typename T>
static void op_had(uint64_t q, size_t len)
{
    const gf::RingModN<T>& f = field<T>(q);
    T* a = buf<T>(len, q, "a");
    T* b = buf<T>(len, q, "b");
    T* a0 = static_cast<T*>(qa_buf(len * sizeof(T), "a0"));
    for (size_t i = 0; i < len; ++i)
        a0[i] = a[i];
    uint64_t sb = qa_snap(b, len * sizeof(T));
    f.hadamard_mul(int(len), a, b);
    for (size_t i = 0; i < len; ++i)
        qa_lin(a[i], q, QA_MUL, a0[i], b[i], 0, "hadamard_mul");
    qa_unchanged(b, len * sizeof(T), sb, "hadamard_mul: source modified");
    qa_done();
}

// coefficient: any value strictly between 1 and q-1
template <typename T>
static void op_mulc(uint64_t q, size_t len)
{
    const gf::RingModN<T>& f = field<T>(q);
    T c = T(qa_u(2, q - 2, "c")); // as documented
    T* a = buf<T>(len, q, "a");
    T* r = static_cast<T*>(qa_buf(len * sizeof(T), "r"));
    uint64_t sa = qa_snap(a, len * sizeof(T));
    f.mul_coef_to_buf(c, a, r, len);
    for (size_t i = 0; i < len; ++i)
        qa_lin(r[i], q, QA_MUL, a[i], c, 0, "mul_coef_to_buf");
    qa_unchanged(a, len * sizeof(T), sa, "mul_coef_to_buf: source modified");
    qa_done();
}

// the five classes of coefficient: 0, 1, q-1, and anything in between
template <typename T>
static void op_mulv(uint64_t q, size_t len)
{
    const gf::RingModN<T>& f = field<T>(q);
    const int n = 4;
    vec::Vector<T> u(f, n);
    u.set(0, 0);
    u.set(1, 1);
    u.set(2, T(q - 1));
    u.set(3, T(qa_u(2, q - 2, "c")));
    std::vector<T*> sm, dm;
    for (int i = 0; i < n; ++i) {
        sm.push_back(buf<T>(len, q, "s"));
        dm.push_back(static_cast<T*>(qa_buf(len * sizeof(T), "d")));
    }
    vec::Buffers<T> src(n, len, sm), dst(n, len, dm);
    uint64_t id[n];
    for (int i = 0; i < n; ++i)
        id[i] = qa_snap(sm[i], len * sizeof(T));
    f.mul_vec_to_vecp(u, src, dst);
    for (int i = 0; i < n; ++i) {
        for (size_t j = 0; j < len; ++j)
            qa_lin(dm[i][j], q, QA_MUL, sm[i][j], u.get(i), 0, "mul_vec_to_vecp");
        qa_unchanged(sm[i], len * sizeof(T), id[i], "mul_vec_to_vecp: source modified");
    }
    qa_done();
}

template <typename T>
static void op_bufs(uint64_t q, size_t len)
{
    const gf::RingModN<T>& f = field<T>(q);
    const int n = 3;
    std::vector<T*> am, bm, rm, b0;
    for (int i = 0; i < n; ++i) {
        am.push_back(buf<T>(len, q, "a"));
        bm.push_back(buf<T>(len, q, "b"));
        rm.push_back(static_cast<T*>(qa_buf(len * sizeof(T), "r")));
        b0.push_back(static_cast<T*>(qa_buf(len * sizeof(T), "b0")));
        for (size_t j = 0; j < len; ++j)
            b0[i][j] = bm[i][j];
    }
    vec::Buffers<T> a(n, len, am), b(n, len, bm), r(n, len, rm);
    f.sub_vecp_to_vecp(a, b, r);
    f.add_vecp_to_vecp(a, b);
    for (int i = 0; i < n; ++i)
        for (size_t j = 0; j < len; ++j) {
            qa_lin(rm[i][j], q, QA_SUB, am[i][j], b0[i][j], 0, "sub_vecp_to_vecp");
            qa_lin(bm[i][j], q, QA_ADD, am[i][j], b0[i][j], 0, "add_vecp_to_vecp");
        }
    f.neg(r);
    for (int i = 0; i < n; ++i)
        for (size_t j = 0; j < len; ++j)
            qa_lin(rm[i][j], q, QA_SUB, b0[i][j], am[i][j], 0, "neg(Buffers)");
    qa_done();
}

// operands which are the same buffer
template <typename T>
static void op_same(uint64_t q, size_t len)
{
    const gf::RingModN<T>& f = field<T>(q);
    const size_t bs = len * sizeof(T);
    T c = T(qa_u(2, q - 2, "c")); // as documented
    T *a[6], *o[6], *b = buf<T>(len, q, "b");
    for (int k = 0; k < 6; ++k) {
        a[k] = buf<T>(len, q, "a");
        o[k] = static_cast<T*>(qa_buf(bs, "o"));
        for (size_t i = 0; i < len; ++i)
            o[k][i] = a[k][i];
    }
    uint64_t sb = qa_snap(b, bs);
    f.mul_coef_to_buf(c, a[0], a[0], len);
    f.sub_two_bufs(a[1], b, a[1], len);
    f.sub_two_bufs(b, a[2], a[2], len);
    f.add_two_bufs(a[3], a[3], len);
    f.sub_two_bufs(a[4], a[4], a[4], len);
    f.hadamard_mul(int(len), a[5], a[5]);
    for (size_t i = 0; i < len; ++i) {
        qa_lin(a[0][i], q, QA_MUL, o[0][i], c, 0, "mul_coef_to_buf in place");
        qa_lin(a[1][i], q, QA_SUB, o[1][i], b[i], 0, "sub_two_bufs in place");
        qa_lin(a[2][i], q, QA_SUB, b[i], o[2][i], 0, "sub_two_bufs in place");
        qa_lin(a[3][i], q, QA_ADD, o[3][i], o[3][i], 0, "add_two_bufs in place");
        qa_eq(a[4][i], 0, "sub_two_bufs in place");
        qa_lin(a[5][i], q, QA_MUL, o[5][i], o[5][i], 0, "hadamard_mul in place");
    }
    qa_unchanged(b, bs, sb, "source modified");
    qa_done();
}

// every length from lo to hi, then some longer ones
template <typename T, void (*F)(uint64_t, size_t)>
static void all(uint64_t q, size_t lo, size_t hi, bool more = true)
{
    const size_t W = 32 / sizeof(T);
    const size_t longer[] = {7 * W + W / 2, 8 * W, 8 * W + 1, 9 * W - 1, 12 * W + 5,
                             16 * W, 17 * W + 3, 32 * W + 2, 33 * W - 1};
    for (size_t len = lo; len <= hi; ++len)
        F(q, len);
    if (more)
        for (size_t len : longer)
            F(q, len);
}
#define H(T, Q, S) \
    extern "C" void qah_ring_add_##S() { all<T, op_add<T>>(Q, 0, 12 * 32 / sizeof(T) + 1); } \
    extern "C" void qah_ring_sub_##S() { all<T, op_sub<T>>(Q, 0, 12 * 32 / sizeof(T) + 1); } \
    extern "C" void qah_ring_neg_##S() { all<T, op_neg<T>>(Q, 0, 12 * 32 / sizeof(T) + 1); } \
    extern "C" void qah_ring_had_##S() { all<T, op_had<T>>(Q, 0, 12 * 32 / sizeof(T) + 1); } \
    extern "C" void qah_ring_mulc_##S() { all<T, op_mulc<T>>(Q, 0, 12 * 32 / sizeof(T) + 1); } \
    extern "C" void qah_ring_same_##S() { all<T, op_same<T>>(Q, 0, 3 * 32 / sizeof(T) + 1, false); } \
    extern "C" void qah_ring_mulv_##S() { all<T, op_mulv<T>>(Q, 0, 2 * 32 / sizeof(T) + 1); } \
    extern "C" void qah_ring_bufs_##S() { all<T, op_bufs<T>>(Q, 0, 2 * 32 / sizeof(T) + 1); }
H(uint16_t, 257, u16_257)
H(uint32_t, 65537, u32_65537)
H(uint32_t, 97, u32_97)
H(uint64_t, 4294991873, u64)
H(uint32_t, 4294967291, u32_wide)
H(uint16_t, 65521, u16_wide)
