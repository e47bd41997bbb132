// Entry states for views: buffers chosen by range, permutation and
// concatenation, extended by zeros; slices, strided views, zero-extended
// vectors. Contents are arbitrary.
#include "qa.h"
#include "quadiron.h"
#include "vec_slice.h"
#include "vec_view.h"
#include "vec_zero_ext.h"
using namespace quadiron;
typedef uint32_t T;
typedef vec::Buffers<T> B;

static void sym(B& b)
{
    for (int i = 0; i < b.get_n(); ++i)
        if (b.get_size())
            qa_fill(b.get(i), b.get_size(), sizeof(T), 0, 0xfffffffeu, "x");
}
static void shape(const B& b, int n, size_t size)
{
    qa_eq(uint64_t(b.get_n()), uint64_t(n), "number of buffers");
    qa_eq(b.get_size(), size, "size of the buffers");
    qa_eq(b.get_mem().size(), uint64_t(n), "number of buffers");
    qa_eq(uint64_t(const_cast<B&>(b).get_mem_len()), n * size, "number of elements");
}
static void zero(const B& b, int i)
{
    for (size_t j = 0; j < b.get_size(); ++j)
        qa_eq(b.get(i)[j], 0, "zero extension");
}
// b[i] is a, or zero if a is null
static void same(const B& b, int i, const B& base, int k)
{
    if (k >= 0) {
        qa_true(b.get(i) == base.get(k), "view refers to the chosen buffer");
    } else
        zero(b, i);
}

extern "C" void qah_view_range()
{
    for (size_t size : {1, 3})
        for (int n = 1; n <= 4; ++n) {
            B base(n, size);
            sym(base);
            for (int b = 0; b <= n + 1; ++b)
                for (int e = b + 1; e <= n + 3; ++e) {
                    B v(base, b, e);
                    shape(v, e - b, size);
                    for (int i = 0; i < e - b; ++i)
                        same(v, i, base, b + i < n ? b + i : -1);
                    // views of views
                    for (int b2 = 0; b2 < e - b; ++b2)
                        for (int e2 = b2 + 1; e2 <= e - b + 1; ++e2) {
                            B w(v, b2, e2);
                            shape(w, e2 - b2, size);
                            for (int i = 0; i < e2 - b2; ++i)
                                same(w, i, base, b + b2 + i < n && b2 + i < e - b
                                                     ? b + b2 + i
                                                     : -1);
                        }
                }
            // writing through a view changes the chosen buffers only
            B v(base, n > 1 ? 1 : 0, n);
            B all(base);
            v.fill(0, 7);
            for (int i = 0; i < n; ++i)
                for (size_t j = 0; j < size; ++j)
                    qa_eq(base.get(i)[j], i == (n > 1 ? 1 : 0) ? 7 : all.get(i)[j],
                          "write through a view");
        }
    qa_done();
}

extern "C" void qah_view_map()
{
    const size_t size = 2;
    auto f(gf::create<gf::Prime<T>>(T(257)));
    for (int m = 1; m <= 3; ++m)
        for (int n = m; n <= 5; ++n) {
            B base(m, size);
            sym(base);
            // all injective maps of m elements into n
            int total = 1;
            for (int i = 0; i < m; ++i)
                total *= n;
            for (int c = 0; c < total; ++c) {
                int map[3], x = c;
                bool inj = true;
                for (int i = 0; i < m; ++i, x /= n) {
                    map[i] = x % n;
                    for (int j = 0; j < i; ++j)
                        inj = inj && map[i] != map[j];
                }
                if (!inj)
                    continue;
                vec::Vector<T> mv(f, m);
                for (int i = 0; i < m; ++i)
                    mv.set(i, T(map[i]));
                B v(base, mv, unsigned(n));
                shape(v, n, size);
                for (int i = 0; i < n; ++i) {
                    int k = -1;
                    for (int j = 0; j < m; ++j)
                        if (map[j] == i)
                            k = j;
                    same(v, i, base, k);
                }
            }
        }
    qa_done();
}

extern "C" void qah_view_concat()
{
    for (int n1 = 1; n1 <= 3; ++n1)
        for (int n2 = 1; n2 <= 3; ++n2) {
            B a(n1, 2), b(n2, 2);
            sym(a);
            sym(b);
            B v(a, b);
            shape(v, n1 + n2, 2);
            for (int i = 0; i < n1 + n2; ++i)
                if (i < n1)
                    same(v, i, a, i);
                else
                    same(v, i, b, i - n1);
            B w(v, 1, n1 + n2 + 1);
            for (int i = 0; i < n1 + n2; ++i)
                if (i + 1 < n1)
                    same(w, i, a, i + 1);
                else if (i + 1 < n1 + n2)
                    same(w, i, b, i + 1 - n1);
                else
                    zero(w, i);
        }
    qa_done();
}

extern "C" void qah_view_copy()
{
    for (size_t size : {1, 3})
        for (int n = 1; n <= 3; ++n) {
            B base(n, size);
            sym(base);
            for (int m = 0; m <= 5; ++m) {
                B c(base, m);
                const int cn = m ? m : n;
                shape(c, cn, size);
                for (int i = 0; i < cn; ++i) {
                    if (i >= n) {
                        zero(c, i);
                        continue;
                    }
                    qa_true(c.get(i) != base.get(i), "copies are deep");
                    qa_eq_mem(c.get(i), base.get(i), size, sizeof(T), "copies hold the value");
                }
                if (cn == n) {
                    qa_true(c == base, "equality");
                    B d(n, size + 1), e(n, size);
                    sym(d);
                    sym(e);
                    d.copy(base);
                    e.copy(0, base.get(n - 1));
                    qa_eq_mem(e.get(0), base.get(n - 1), size, sizeof(T), "copy of a buffer");
                    for (int i = 0; i < n; ++i)
                        qa_eq_mem(d.get(i), base.get(i), size, sizeof(T), "copy of all buffers");
                }
                if (cn != n)
                    qa_true(!(c == base), "equality");
            }
            B c(base);
            c.get(n - 1)[size - 1] = base.get(n - 1)[size - 1] + 1;
            qa_true(!(c == base), "equality");
            c.zero_fill();
            for (int i = 0; i < n; ++i)
                zero(c, i);
        }
    qa_done();
}

extern "C" void qah_view_split()
{
    for (int n = 2; n <= 6; n += 2) {
        B base(n, 2);
        sym(base);
        std::vector<T*> was = base.get_mem();
        std::vector<T*> ev(n / 2), od(n / 2);
        B even(n / 2, 2, ev), odd(n / 2, 2, od);
        base.separate_even_odd(even, odd);
        for (int i = 0; i < n; ++i)
            qa_true((i % 2 ? odd : even).get(i / 2) == was[i], "even and odd buffers");
        base.separate_even_odd();
        for (int i = 0; i < n; ++i)
            qa_true(base.get(i / 2 + (i % 2 ? n / 2 : 0)) == was[i], "even and odd buffers");
        was = base.get_mem();
        for (int i = 0; i < n; ++i)
            for (int j = 0; j < n; ++j) {
                base.swap(i, j);
                qa_true(base.get(i) == was[j] && base.get(j) == was[i], "swap of buffers");
                base.swap(i, j);
            }
    }
    qa_done();
}

extern "C" void qah_view_vector()
{
    auto f(gf::create<gf::Prime<T>>(T(65537)));
    for (int n = 1; n <= 6; ++n) {
        vec::Vector<T> v(f, n);
        std::vector<T> x(n), y(n);
        qa_fill(x.data(), n, sizeof(T), 0, 65536, "x");
        for (int i = 0; i < n; ++i)
            y[i] = x[i] + 1;
        auto reset = [&] {
            for (int i = 0; i < n; ++i)
                v.set(i, x[i]);
        };
        reset();
        for (int off = 0; off < n; ++off)
            for (int len = 1; len <= n + 1; ++len) {
                vec::Slice<T> s(&v, len, off);
                const int sl = off + len <= n ? len : n - off;
                qa_eq(uint64_t(s.get_n()), uint64_t(sl), "length of a slice");
                for (int i = 0; i < sl; ++i)
                    qa_eq(s.get(i), x[off + i], "slice");
                for (int i = 0; i < sl; ++i) {
                    s.set(i, y[off + i]);
                    for (int j = 0; j < n; ++j)
                        qa_eq(v.get(j), j == off + i ? y[j] : x[j], "write through a slice");
                    s.set(i, x[off + i]);
                }
                for (int o2 = 0; o2 + sl <= n; ++o2) {
                    s.set_map(o2);
                    qa_eq(uint64_t(s.get_n()), uint64_t(sl), "length of a slice");
                    qa_eq(uint64_t(s.get_offset()), uint64_t(o2), "offset of a slice");
                    for (int i = 0; i < sl; ++i)
                        qa_eq(s.get(i), x[o2 + i], "slice");
                }
            }
        for (int off = 0; off < n; ++off)
            for (int step = 1; step <= n; ++step)
                for (int len = 1; len <= n; ++len) {
                    vec::View<T> w(&v, len, off, step);
                    qa_eq(uint64_t(w.get_n()), uint64_t(len), "length of a view");
                    for (int i = 0; i < len; ++i)
                        qa_eq(w.get(i), x[(off + step * i) % n], "strided view");
                    if (len > 1)
                        continue;
                    w.set_len(n);
                    w.set_map(step - 1, off + 1);
                    for (int i = 0; i < n; ++i)
                        qa_eq(w.get(i), x[(step - 1 + (off + 1) * i) % n], "strided view");
                    for (int i = 0; i < n; ++i) {
                        const int k = (step - 1 + (off + 1) * i) % n;
                        w.set(i, y[k]);
                        for (int j = 0; j < n; ++j)
                            qa_eq(v.get(j), j == k ? y[j] : x[j], "write through a view");
                        w.set(i, x[k]);
                    }
                }
        for (int len = n; len <= n + 3; ++len) {
            vec::ZeroExtended<T> z(v, len);
            qa_eq(uint64_t(z.get_n()), uint64_t(len), "length of a zero-extended vector");
            for (int i = 0; i < len; ++i)
                qa_eq(z.get(i), i < n ? x[i] : 0, "zero extension");
        }
        vec::Vector<T> a(v);
        qa_true(a == v, "equality");
        a.set(n - 1, y[n - 1]);
        qa_true(!(a == v), "equality");
        qa_eq(v.get(n - 1), x[n - 1], "copies are deep");
    }
    qa_done();
}
