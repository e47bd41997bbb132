// Entry states for vectors, polynomials and matrices over a prime field: all
// elements are arbitrary.
#include "qa.h"
#include "quadiron.h"
#include "vec_matrix.h"
#include "vec_poly.h"
using namespace quadiron;

enum { MUL = -1, ADD = -2, SUB = -3 };
static inline int32_t K(int c) { return 1000 + c; }

struct Expr {
    std::vector<int32_t> p;
    int n = 0; // operands to add up
    // add x[i] * x[j]
    void prod(int i, int j)
    {
        p.push_back(i);
        p.push_back(j);
        p.push_back(MUL);
        term();
    }
    void one(int i)
    {
        p.push_back(i);
        term();
    }
    void times(int c, int i)
    {
        p.push_back(K(c));
        prod_top(i);
    }
    void prod_top(int i)
    {
        p.push_back(i);
        p.push_back(MUL);
        term();
    }
    void term()
    {
        if (n++)
            p.push_back(ADD);
    }
    template <typename T>
    void is(T got, uint64_t q, const std::vector<T>& x, const char* label)
    {
        if (!n)
            p.push_back(K(0));
        qa_rpn(got, q, p.data(), p.size(), x.data(), sizeof(T), x.size(), label);
    }
};

template <typename T>
struct Env {
    gf::Prime<T> f;
    uint64_t q;
    explicit Env(uint64_t q) : f(gf::create<gf::Prime<T>>(T(q))), q(q) {}
    std::vector<T> sym(int n, uint64_t lo = 0)
    {
        std::vector<T> x(n);
        if (n)
            qa_fill(x.data(), n, sizeof(T), lo, q - 1, "x");
        return x;
    }
};

template <typename T>
static void fill(vec::Vector<T>& v, const std::vector<T>& x, int from, int n)
{
    for (int i = 0; i < n; ++i)
        v.set(i, x[from + i]);
}

// ------------------------------------------------------------- vectors
template <typename T>
static void vector_ops(uint64_t q)
{
    Env<T> e(q);
    for (int n = 1; n <= 5; ++n) {
        // x: vector, y: vector, last: scalar
        auto x = e.sym(2 * n + 1);
        vec::Vector<T> v(e.f, n), w(e.f, n);
        fill(w, x, n, n);
        qa_mod(q);
        fill(v, x, 0, n);
        v.mul_scalar(x[2 * n]);
        for (int i = 0; i < n; ++i) {
            Expr r;
            r.prod(i, 2 * n);
            r.is(v.get(i), q, x, "mul_scalar");
        }
        fill(v, x, 0, n);
        v.hadamard_mul(&w);
        for (int i = 0; i < n; ++i) {
            Expr r;
            r.prod(i, n + i);
            r.is(v.get(i), q, x, "hadamard_mul");
        }
        fill(v, x, 0, n);
        v.add(&w);
        for (int i = 0; i < n; ++i) {
            Expr r;
            r.one(i);
            r.one(n + i);
            r.is(v.get(i), q, x, "add");
        }
        fill(v, x, 0, n);
        v.neg();
        for (int i = 0; i < n; ++i) {
            Expr r;
            r.p = {K(0), i, SUB};
            r.n = 1;
            r.is(v.get(i), q, x, "neg");
        }
        fill(v, x, 0, n);
        v.mul_beta(3);
        uint64_t b = 1;
        for (int i = 0; i < n; ++i, b = b * 3 % q) {
            Expr r;
            r.times(int(b), i);
            r.is(v.get(i), q, x, "mul_beta");
        }
        for (int i = 0; i < n; ++i)
            qa_eq(w.get(i), x[n + i], "argument left alone");
        // shorter operand at an offset
        for (int len = 0; len <= n; ++len)
            for (int off = 0; off + len <= n; ++off) {
                vec::Vector<T> s(e.f, len ? len : 1);
                fill(s, x, n, len);
                for (int kind = 0; kind < 4; ++kind) {
                    if (kind != 3 && !len)
                        continue;
                    if (kind == 2 && off)
                        continue;
                    fill(v, x, 0, n);
                    if (kind == 0)
                        v.add(&s, off);
                    else if (kind == 1)
                        v.add_mutual(&s, off);
                    else if (kind == 2)
                        v.add_mutual(&s);
                    else
                        v.add_mutual(&s, off, len);
                    for (int i = 0; i < n; ++i) {
                        Expr r;
                        r.one(i);
                        if (i >= off && i < off + len)
                            r.one(n + i - off);
                        r.is(v.get(i), q, x, "add at an offset");
                    }
                }
            }
        qa_mod(0);
        // copies, extended by zeros when the source is too short
        for (int len = 1; len <= n; ++len) {
            vec::Vector<T> s(e.f, len);
            fill(s, x, n, len);
            for (int cnt = 1; cnt <= n; ++cnt) {
                fill(v, x, 0, n);
                v.copy(&s, cnt);
                for (int i = 0; i < n; ++i)
                    qa_eq(v.get(i), i < cnt ? (i < len ? x[n + i] : T(0)) : x[i], "copy");
                for (int off = 0; off + cnt <= n; ++off) {
                    fill(v, x, 0, n);
                    v.copy(&s, cnt, off);
                    for (int i = 0; i < n; ++i) {
                        int k = i - off;
                        qa_eq(v.get(i),
                              k >= 0 && k < cnt ? (k < len ? x[n + k] : T(0)) : x[i],
                              "copy at an offset");
                    }
                    for (int so = 0; so <= len; ++so) {
                        fill(v, x, 0, n);
                        v.copy(&s, cnt, off, so);
                        for (int i = 0; i < n; ++i) {
                            int k = i - off;
                            qa_eq(v.get(i),
                                  k >= 0 && k < cnt
                                      ? (so + k < len ? x[n + so + k] : T(0))
                                      : x[i],
                                  "copy at two offsets");
                        }
                    }
                }
            }
            fill(v, x, 0, n);
            v.copy(&s);
            for (int i = 0; i < n; ++i)
                qa_eq(v.get(i), i < len ? x[n + i] : x[i], "copy");
        }
        fill(v, x, 0, n);
        v.zero_fill();
        for (int i = 0; i < n; ++i)
            qa_eq(v.get(i), 0, "zero_fill");
        v.fill(x[2 * n]);
        for (int i = 0; i < n; ++i)
            qa_eq(v.get(i), x[2 * n], "fill");
        fill(v, x, 0, n);
        for (int i = 0; i < n; ++i)
            for (int j = 0; j < n; ++j) {
                fill(v, x, 0, n);
                v.swap(i, j);
                for (int k = 0; k < n; ++k)
                    qa_eq(v.get(k), x[k == i ? j : k == j ? i : k], "swap");
            }
    }
}

// ------------------------------------------------------------- polynomials
// coefficients x[from..from+deg], the leading one is not zero
template <typename T>
static void poly_of(vec::Poly<T>& p, const std::vector<T>& x, int from, int deg)
{
    p.zero_fill();
    for (int i = 0; i <= deg; ++i)
        p.set(i, x[from + i]);
}

template <typename T>
static void poly_ops(uint64_t q, bool product)
{
    Env<T> e(q);
    const int size = 6;
    for (int d = -1; d <= 3; ++d) {
        const int m = d + 1;
        if (!product) {
            // x: coefficients, then a point; leading coefficient not zero
            auto x = e.sym(m);
            if (m)
                qa_fill(&x[d], 1, sizeof(T), 1, q - 1, "lead");
            auto pt = e.sym(1);
            x.push_back(pt[0]);
            vec::Poly<T> p(e.f, size);
            poly_of(p, x, 0, d);
            qa_eq(uint64_t(int64_t(p.get_deg())), uint64_t(int64_t(d)), "degree");
            qa_mod(q);
            T v = p.eval(x[m]);
            {
                Expr r;
                for (int i = 0; i < m; ++i) {
                    r.p.push_back(i);
                    for (int k = 0; k < i; ++k) {
                        r.p.push_back(m);
                        r.p.push_back(MUL);
                    }
                    r.term();
                }
                r.is(v, q, x, "eval");
            }
            {
                vec::Poly<T> c(p);
                c.neg();
                for (int i = 0; i < size; ++i) {
                    Expr r;
                    r.p.push_back(K(0));
                    if (i < m) {
                        r.p.push_back(i);
                        r.p.push_back(SUB);
                    }
                    r.n = 1;
                    r.is(c.get(i), q, x, "neg");
                }
            }
            {
                vec::Poly<T> c(p);
                c.derivative();
                for (int i = 0; i < size; ++i) {
                    Expr r;
                    if (i + 1 < m)
                        r.times(int((i + 1) % q), i + 1);
                    r.is(c.get(i), q, x, "derivative");
                }
            }
            {
                vec::Poly<T> c(p);
                c.mul_to_x_plus_coef(x[m]);
                for (int i = 0; i < size; ++i) {
                    Expr r;
                    if (i < m)
                        r.prod(i, m);
                    if (i >= 1 && i - 1 < m)
                        r.one(i - 1);
                    r.is(c.get(i), q, x, "multiply by X + c");
                }
                qa_eq(uint64_t(int64_t(c.get_deg())),
                      uint64_t(int64_t(m ? d + 1 : -1)), "degree");
            }
            {
                vec::Poly<T> c(p), z(e.f, size);
                c.zero_fill();
                qa_eq(c.eval(x[m]), 0, "eval of zero");
                c = p;
                T w = c.eval(x[m]);
                qa_eq(w, v, "copies hold the value");
            }
            qa_mod(0);
            continue;
        }
        for (int d2 = -1; d2 <= 2; ++d2) {
            const int m2 = d2 + 1;
            // coefficients of both, none is zero (sparse ones below)
            for (int sparse = 0; sparse < 2; ++sparse) {
                auto x = e.sym(m + m2, 1);
                if (sparse) {
                    if (m > 1) x[0] = 0;
                    if (m2 > 1) x[m] = 0;
                    if (m > 2) x[1] = 0;
                }
                for (int out = 0; out < size; ++out) {
                    vec::Poly<T> a(e.f, size), b(e.f, m2 ? m2 : 1);
                    poly_of(a, x, 0, d);
                    poly_of(b, x, m, d2);
                    qa_mod(q);
                    a.mul(&b, out);
                    for (int i = 0; i <= out; ++i) {
                        Expr r;
                        for (int j = 0; j < m; ++j)
                            if (i - j >= 0 && i - j < m2)
                                r.prod(j, m + i - j);
                        r.is(a.get(i), q, x, "product");
                    }
                    qa_mod(0);
                    if (m && m2 && d + d2 <= out) {
                        // the product evaluates to the product of the values
                        qa_mod(q);
                        T v = a.eval(3);
                        Expr r;
                        for (int j = 0; j < m; ++j)
                            for (int k = 0; k < m2; ++k) {
                                uint64_t c = 1;
                                for (int t = 0; t < j + k; ++t)
                                    c = c * 3 % q;
                                r.p.push_back(j);
                                r.p.push_back(m + k);
                                r.p.push_back(MUL);
                                r.p.push_back(K(int(c)));
                                r.p.push_back(MUL);
                                r.term();
                            }
                        r.is(v, q, x, "value of a product");
                        qa_mod(0);
                    }
                    if (!m || !m2)
                        qa_eq(a.eval(2), 0, "product with zero");
                }
            }
        }
    }
}

// ------------------------------------------------------------- matrices
template <typename T>
static void matrix_ops(uint64_t q)
{
    Env<T> e(q);
    for (int n = 1; n <= 3; ++n)
        for (int m = 1; m <= 3; ++m) {
            auto x = e.sym(n * m + m);
            vec::Matrix<T> a(e.f, n, m);
            for (int i = 0; i < n; ++i)
                for (int j = 0; j < m; ++j)
                    a.set(i, j, x[i * m + j]);
            vec::Vector<T> v(e.f, m), o(e.f, n);
            fill(v, x, n * m, m);
            qa_mod(q);
            a.mul(&o, &v);
            for (int i = 0; i < n; ++i) {
                Expr r;
                for (int j = 0; j < m; ++j)
                    r.prod(i * m + j, n * m + j);
                r.is(o.get(i), q, x, "matrix times vector");
            }
            qa_mod(0);
        }
    // the inverse undoes the multiplication
    for (int n = 1; n <= 4; ++n)
        for (int kind = 0; kind < 3; ++kind) {
            vec::Matrix<T> a(e.f, n, n), b(e.f, n, n);
            if (kind == 0) {
                for (int i = 0; i < n; ++i)
                    for (int j = 0; j < n; ++j) {
                        T v = e.f.exp(T(i + 2), T(j));
                        a.set(i, j, v);
                        b.set(i, j, v);
                    }
            } else if (kind == 1) {
                // pivots have to be searched for
                for (int i = 0; i < n; ++i)
                    for (int j = 0; j < n; ++j) {
                        T v = i + j == n - 1 ? T(i + 2) : T(0);
                        a.set(i, j, v);
                        b.set(i, j, v);
                    }
            } else {
                a.cauchy();
                b.cauchy();
                if (n > 1) {
                    bool ones = true;
                    for (int i = 0; i < n; ++i)
                        ones = ones && a.get(0, i) == 1 && a.get(i, 0) == 1;
                    qa_true(ones, "cauchy: first row and column");
                }
            }
            b.inv();
            auto x = e.sym(n);
            vec::Vector<T> v(e.f, n), o(e.f, n), w(e.f, n);
            fill(v, x, 0, n);
            qa_mod(q);
            a.mul(&o, &v);
            b.mul(&w, &o);
            qa_mod(0);
            for (int i = 0; i < n; ++i) {
                Expr r;
                r.one(i);
                r.is(w.get(i), q, x, "inverse matrix");
            }
        }
    // a singular matrix is refused
    bool refused = false;
    try {
        vec::Matrix<T> a(e.f, 2, 2);
        a.set(0, 0, 1);
        a.set(0, 1, 2);
        a.set(1, 0, 3);
        a.set(1, 1, 6);
        a.inv();
    } catch (...) {
        refused = true;
    }
    qa_true(refused, "singular matrix refused");
}

#define H(T, Q, S) \
    extern "C" void qah_vec_##S() { vector_ops<T>(Q); qa_done(); } \
    extern "C" void qah_poly_##S() { poly_ops<T>(Q, false); qa_done(); } \
    extern "C" void qah_prod_##S() { poly_ops<T>(Q, true); qa_done(); } \
    extern "C" void qah_mat_##S() { matrix_ops<T>(Q); qa_done(); }
H(uint16_t, 257, u16_257)
H(uint32_t, 65537, u32_65537)
H(uint32_t, 31, u32_31)
