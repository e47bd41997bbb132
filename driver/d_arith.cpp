// Entry states for the number-theoretic helpers. Every expected value is found
// here by a definition, not by the algorithm of the library.
#include "qa.h"
#include "quadiron.h"
#include "arith.h"
#include "gf_bin_ext.h"
#include "gf_prime.h"
#include "gf_ring.h"
using namespace quadiron;
typedef unsigned __int128 W;

static bool prime(uint64_t n)
{
    for (uint64_t d = 2; d * d <= n; ++d)
        if (n % d == 0)
            return false;
    return n > 1;
}

static uint64_t common(uint64_t a, uint64_t b)
{
    uint64_t g = a < b ? a : b;
    if (g == 0)
        return a + b;
    while (a % g || b % g)
        --g;
    return g;
}

static uint64_t power(uint64_t b, uint64_t e, uint64_t m)
{
    uint64_t r = 1 % m;
    for (int i = 63; i >= 0; --i) {
        r = uint64_t(W(r) * r % m);
        if ((e >> i) & 1)
            r = uint64_t(W(r) * (b % m) % m);
    }
    return r;
}

// every number whose integer square root is r, for small, middle and largest r
template <typename T>
static void roots()
{
    const uint64_t top = sizeof(T) == 4 ? 0xffff : 0xffffffff;
    auto one = [](uint64_t r) {
        W hi = (W(r) + 1) * (r + 1) - 1;
        const T n = T(qa_u(r * r, uint64_t(hi), "n"));
        qa_true(arith::sqrt<T>(n) == r, "integer square root");
    };
    for (uint64_t r = 1; r <= 700; ++r)
        one(r);
    for (int b = 9; b < (sizeof(T) == 4 ? 16 : 32); ++b)
        for (uint64_t r = (uint64_t(1) << b) - 2; r <= (uint64_t(1) << b) + 2; ++r)
            one(r);
    for (uint64_t r = top - 40; r <= top; ++r)
        one(r);
    qa_done();
}

template <typename T>
static void twos()
{
    for (int k = 0; k < 31; ++k) {
        const int hi = k == 30 ? 0x7fffffff : (1 << (k + 1)) - 1;
        const int n = int(qa_u(uint64_t(1) << k, uint64_t(hi), "n"));
        qa_true(arith::log2<T>(n) == k, "binary logarithm");
        qa_true(arith::exp2<T>(k) == 1 << k, "power of two");
        qa_true(arith::is_power_of_2<T>(1 << k), "is a power of two");
        qa_true(arith::ceil2<T>(1 << k) == T(1) << k, "rounded up");
        if (k > 1 && k < 30) {
            const int d[] = {(1 << k) + 1, hi, (1 << k) + (1 << (k - 1)), hi - 1, hi / 3 * 2 + 1};
            for (int v : d)
                if (v & (v - 1)) {
                    qa_true(!arith::is_power_of_2<T>(v), "is a power of two");
                    qa_true(arith::ceil2<T>(v) == T(2) << k, "rounded up");
                }
        }
    }
    for (int n = 1; n <= 600; ++n) {
        unsigned c = 1;
        while (c < unsigned(n))
            c *= 2;
        qa_true(arith::ceil2<T>(n) == c, "rounded up");
        qa_true(arith::is_power_of_2<T>(n) == (c == unsigned(n)), "is a power of two");
    }
    qa_true(!arith::is_power_of_2<T>(0) && !arith::is_power_of_2<T>(-4), "is a power of two");
    qa_done();
}

template <typename T>
static void bezout_of(uint64_t a, uint64_t b, uint64_t g)
{
    typedef SignedDoubleSizeVal<T> S;
    S c[2], q[2];
    const S d = arith::extended_gcd<T>(S(a), S(b), c, q);
    qa_true(d == S(g), "greatest common divisor");
    qa_true(arith::extended_gcd<T>(S(a), S(b), nullptr, nullptr) == S(g), "greatest common divisor");
    qa_true(S(a) * c[0] + S(b) * c[1] == S(g), "Bezout identity");
    const S x = q[0] < 0 ? -q[0] : q[0], y = q[1] < 0 ? -q[1] : q[1];
    if (g)
        qa_true(x == S(a / g) && y == S(b / g), "quotients by the divisor");
}

template <typename T>
static void gcds()
{
    for (uint64_t a = 0; a <= 40; ++a)
        for (uint64_t b = 0; b <= 40; ++b) {
            const uint64_t g = common(a, b);
            qa_true(arith::gcd<T>(T(a), T(b)) == g, "gcd");
            if (a + b)
                bezout_of<T>(a, b, g);
        }
    // built with a known divisor: consecutive Fibonacci numbers, times a factor
    const uint64_t top = uint64_t(T(-1));
    uint64_t f0 = 1, f1 = 2;
    while (f1 <= top / 2 && f1 < (uint64_t(1) << 62)) {
        for (uint64_t g : {uint64_t(1), uint64_t(2), uint64_t(3), uint64_t(10), uint64_t(257)}) {
            if (f1 > top / g)
                continue;
            qa_true(arith::gcd<T>(T(f0 * g), T(f1 * g)) == g, "gcd");
            qa_true(arith::gcd<T>(T(f1 * g), T(f0 * g)) == g, "gcd");
            bezout_of<T>(f0 * g, f1 * g, g);
            bezout_of<T>(f1 * g, f0 * g, g);
        }
        f1 += f0;
        f0 = f1 - f0;
    }
    qa_done();
}

template <typename T>
static void exps()
{
    const uint64_t top = uint64_t(T(-1));
    for (uint64_t b = 0; b <= 20; ++b) {
        uint64_t r = 1;
        for (uint64_t e = 0; e < 70; ++e) {
            qa_true(arith::exp<T>(T(b), T(e)) == r, "power");
            if (b && r > top / b)
                break;
            r *= b;
        }
    }
    for (uint64_t m = 1; m <= 24; ++m)
        for (uint64_t b = 0; b <= 26; ++b)
            for (uint64_t e = 0; e <= 9; ++e)
                qa_true(arith::exp_mod<T>(T(b), T(e), T(m)) == power(b, e, m), "power modulo");
    const uint64_t ms[] = {255, 257, 65535, 65536, 65537, 65539, 1000003, 0x7fffffff, 4294967291u, top, top - 1, top / 2 + 1};
    for (uint64_t m : ms)
        for (uint64_t b : {uint64_t(2), uint64_t(3), uint64_t(255), m / 2, m / 2 + 1, m - 2, m - 1, top})
            for (uint64_t e : {uint64_t(0), uint64_t(1), uint64_t(2), uint64_t(3), uint64_t(31), uint64_t(32), m / 2, m - 1, top})
                qa_true(arith::exp_mod<T>(T(b), T(e), T(m)) == power(b, e, m), "power modulo");
    qa_done();
}

template <typename T>
static void crt()
{
    for (uint64_t p = 2; p <= 9; ++p)
        for (uint64_t q = p + 1; q <= 10; ++q)
            if (common(p, q) == 1)
                for (uint64_t x = 0; x < p * q; ++x) {
                    T a[2] = {T(x % p), T(x % q)}, n[2] = {T(p), T(q)};
                    qa_true(arith::chinese_remainder<T>(2, a, n) == x, "Chinese remainder");
                    T b[2] = {T(x % q), T(x % p)}, m[2] = {T(q), T(p)};
                    qa_true(arith::chinese_remainder<T>(2, b, m) == x, "Chinese remainder");
                }
    const uint64_t big[][4] = {{3, 5, 7, 11}, {16, 27, 25, 49}, {255, 257, 256, 1}, {97, 101, 103, 1}, {65537, 3, 5, 7}, {2, 641, 97, 1}};
    for (auto& v : big) {
        const int k = v[3] == 1 ? 3 : 4;
        uint64_t all = 1;
        for (int i = 0; i < k; ++i)
            all *= v[i];
        for (uint64_t j = 0; j < 40; ++j) {
            const uint64_t x = j < 5 ? j : j < 10 ? all - 1 - (j - 5) : (all / 41) * j + j;
            T a[4], n[4];
            for (int i = 0; i < k; ++i)
                a[i] = T(x % v[i]), n[i] = T(v[i]);
            qa_true(arith::chinese_remainder<T>(k, a, n) == x, "Chinese remainder");
        }
    }
    T a[1] = {5}, n[1] = {9};
    qa_true(arith::chinese_remainder<T>(1, a, n) == 5, "Chinese remainder");
    qa_done();
}

// Legendre symbol by listing the squares
static int legendre(int64_t n, uint64_t p)
{
    int64_t r = n % int64_t(p);
    if (r < 0)
        r += int64_t(p);
    if (r == 0)
        return 0;
    for (uint64_t x = 1; x <= p / 2; ++x)
        if (x * x % p == uint64_t(r))
            return 1;
    return -1;
}

template <typename T>
static void jacobis()
{
    typedef SignedDoubleSizeVal<T> S;
    for (uint64_t m = 1; m <= 45; m += 2)
        for (int64_t n = -23; n <= 50; ++n) {
            int want = 1;
            uint64_t k = m;
            for (uint64_t p = 3; p <= m; p += 2)
                while (k % p == 0) {
                    want *= legendre(n, p);
                    k /= p;
                }
            qa_true(arith::jacobi<T>(S(n), S(m)) == want, "Jacobi symbol");
        }
    // large prime moduli, by Euler's criterion
    for (uint64_t p : {uint64_t(257), uint64_t(65537), uint64_t(65521), uint64_t(2147483647)})
        for (uint64_t n : {uint64_t(0), uint64_t(1), uint64_t(2), uint64_t(3), uint64_t(5), uint64_t(6), uint64_t(7), uint64_t(10), p / 2, p - 3, p - 2, p - 1, p, p + 2}) {
            const uint64_t e = power(n, p / 2, p);
            qa_true(arith::jacobi<T>(S(n), S(p)) == (e == 0 ? 0 : e == 1 ? 1 : -1), "Jacobi symbol");
        }
    for (int64_t m : {2, 4, 10, -1, -3, -9, -2}) {
        bool refused = false;
        try {
            arith::jacobi<T>(S(3), S(m));
        } catch (...) {
            refused = true;
        }
        qa_true(refused, "even or negative modulus refused");
    }
    for (uint64_t n = 3; n <= 45; n += 2) {
        unsigned liars = 0;
        for (uint64_t a = 1; a < n; ++a)
            liars += arith::solovay_strassen1<T>(T(a), T(n));
        qa_true(prime(n) ? liars == n - 1 : liars * 2 <= n - 1, "primality witnesses");
    }
    qa_true(arith::solovay_strassen1<T>(T(3), T(65537)) && arith::solovay_strassen1<T>(T(65535), T(65537)), "primality witnesses");
    qa_true(!arith::solovay_strassen1<T>(T(2), T(65533)), "primality witnesses");
    qa_done();
}

template <typename T>
static void factors_of(uint64_t n)
{
    std::vector<uint64_t> ps;
    std::vector<int> es;
    uint64_t k = n;
    for (uint64_t d = 2; d * d <= k; ++d)
        if (k % d == 0) {
            ps.push_back(d);
            es.push_back(0);
            while (k % d == 0) {
                k /= d;
                ++es.back();
            }
        }
    if (k > 1) {
        ps.push_back(k);
        es.push_back(1);
    }
    auto same = [](const std::vector<T>& got, const std::vector<uint64_t>& want) {
        if (got.size() != want.size())
            return false;
        for (size_t i = 0; i < got.size(); ++i)
            if (got[i] != want[i])
                return false;
        return true;
    };
    qa_true(arith::is_prime<T>(T(n)) == (ps.size() == 1 && es[0] == 1), "primality");
    qa_true(same(arith::factor_distinct_prime<T>(T(n)), ps), "distinct prime factors");
    std::vector<T> gp;
    std::vector<int> ge;
    arith::factor_prime<T>(T(n), &gp, &ge);
    qa_true(same(gp, ps) && ge == es, "factorisation");
    std::vector<uint64_t> all, co, pr;
    for (size_t i = 0; i < ps.size(); ++i) {
        uint64_t c = 1;
        for (int j = 0; j < es[i]; ++j) {
            all.push_back(ps[i]);
            c *= ps[i];
        }
        co.push_back(c);
        if (ps[i] != n)
            pr.push_back(n / ps[i]);
    }
    qa_true(same(arith::get_prime_factors<T>(T(n)), all), "prime factors");
    qa_true(same(arith::get_coprime_factors<T>(T(n)), co), "coprime factors");
    qa_true(same(arith::get_proper_divisors<T>(T(n)), pr), "proper divisors");
    qa_true(same(arith::get_proper_divisors<T>(T(n), gp), pr), "proper divisors");
}

template <typename T>
static void factors()
{
    for (uint64_t n = 1; n <= 260; ++n) {
        factors_of<T>(n);
        std::vector<T> d = arith::get_all_divisors<T>(T(n));
        size_t i = 0;
        bool ok = true;
        for (uint64_t k = 1; k <= n; ++k)
            if (n % k == 0) {
                ok = ok && i < d.size() && d[i] == k;
                ++i;
            }
        qa_true(ok && i == d.size(), "all divisors");
    }
    for (uint64_t n : {289, 961, 1024, 2187, 5041, 9991, 10201, 10403, 30030, 65521, 65533, 65535, 65536, 65537, 1018081})
        factors_of<T>(n);
    qa_true(!arith::is_prime<T>(0), "primality");
    qa_done();
}

template <typename T>
static void lengths()
{
    for (uint64_t o = 1; o <= 130; ++o)
        for (uint64_t n = 1; n <= o; ++n) {
            uint64_t w = n;
            while (o % w)
                ++w;
            qa_true(arith::get_code_len<T>(T(o), T(n)) == w, "smallest divisor above the bound");
            if (o == 1)
                continue;
            const uint64_t h = uint64_t(arith::get_code_len_high_compo<T>(T(o), T(n)));
            qa_true(h >= n && h <= o && o % h == 0, "divisor above the bound");
        }
    for (uint64_t o : {255, 256, 1022, 1536, 65535, 65536})
        for (uint64_t n : {1, 2, 3, 5, 14, 15, 16, 17, 18, 51, 52, 100, 127, 128, 129, 255}) {
            uint64_t w = n;
            while (o % w)
                ++w;
            qa_true(arith::get_code_len<T>(T(o), T(n)) == w, "smallest divisor above the bound");
            const uint64_t h = uint64_t(arith::get_code_len_high_compo<T>(T(o), T(n)));
            qa_true(h >= n && h <= o && o % h == 0, "divisor above the bound");
            if (o == 256 || o == 65536)
                qa_true(h == w, "smallest divisor above the bound");
        }
    qa_done();
}

// orders, roots and logarithms in a field of q elements
template <typename F, typename T>
static void group_of(const F& f, uint64_t q, bool field_of_integers)
{
    for (uint64_t x = 1; x < q; ++x) {
        uint64_t o = 1;
        T y = T(x);
        while (y != 1) {
            y = f.mul(y, T(x));
            ++o;
        }
        qa_true(f.get_order(T(x)) == (x == 1 ? 1 : o), "order of an element");
        qa_true(f.is_primitive_root(T(x)) == (o == q - 1), "primitive root");
        qa_true(f.check_primitive_root(T(x)) == (o == q - 1), "primitive root");
        if (q < 20)
            for (uint64_t k = 1; k < q; ++k)
                qa_true(f.check_order_naive(T(x), T(k)) == (k == o), "order checked");
    }
    qa_true(!f.is_primitive_root(T(0)), "primitive root");
    const T g = f.get_primitive_root();
    uint64_t o = 1;
    for (T y = g; y != 1; ++o)
        y = f.mul(y, g);
    qa_true(o == q - 1, "primitive root");
    qa_true(f.get_root() == g, "primitive root");
    for (uint64_t n = 1; n < q; ++n) {
        const T w = f.get_nth_root(T(n));
        const uint64_t d = common(n, q - 1);
        uint64_t k = 1;
        for (T y = w; y != 1 && k < q; ++k)
            y = f.mul(y, w);
        qa_true(k == d, "root of unity");
        uint64_t l = n;
        while ((q - 1) % l)
            ++l;
        qa_true(f.get_code_len(T(n)) == l, "smallest divisor above the bound");
        const uint64_t h = uint64_t(f.get_code_len_high_compo(T(n)));
        qa_true(h >= n && h < q && (q - 1) % h == 0, "divisor above the bound");
        // powers of a root
        if (n < 12) {
            vec::Vector<T> W(f, int(d));
            f.compute_omegas(W, int(d), w);
            T y = 1;
            for (uint64_t i = 0; i < d; ++i) {
                qa_true(W.get(int(i)) == y, "powers of a root");
                y = f.mul(y, w);
            }
        }
    }
    if (q < 40)
        for (uint64_t x = 1; x < q; ++x) {
            T y = 1;
            uint64_t e = 0;
            do {
                y = f.mul(y, g);
                ++e;
            } while (y != T(x));
            qa_true(f.log(g, T(x)) % (q - 1) == e % (q - 1), "logarithm");
            if (f.get_order(T(x)) != q - 1) {
                bool none = false;
                try {
                    f.log(T(x), g);
                } catch (...) {
                    none = true;
                }
                qa_true(none, "no logarithm");
            }
        }
    if (q < 40 && field_of_integers)
        for (uint64_t x = 0; x < q; ++x)
            qa_true(f.is_quadratic_residue(T(x)) == (x == 0 || legendre(int64_t(x), q) == 1), "square");
}

template <typename T>
static void group(uint64_t q)
{
    auto f = gf::create<gf::Prime<T>>(T(q));
    group_of<decltype(f), T>(f, q, q > 2);
    qa_done();
}

template <typename T>
static void group2(unsigned n)
{
    auto f = gf::create<gf::BinExtension<T>>(n);
    group_of<decltype(f), T>(f, uint64_t(1) << n, false);
    qa_done();
}

#define A(T, S) \
    extern "C" void qah_ar_roots_##S() { roots<T>(); } \
    extern "C" void qah_ar_twos_##S() { twos<T>(); } \
    extern "C" void qah_ar_gcds_##S() { gcds<T>(); } \
    extern "C" void qah_ar_exps_##S() { exps<T>(); } \
    extern "C" void qah_ar_crt_##S() { crt<T>(); } \
    extern "C" void qah_ar_jacobi_##S() { jacobis<T>(); } \
    extern "C" void qah_ar_factors_##S() { factors<T>(); } \
    extern "C" void qah_ar_lengths_##S() { lengths<T>(); }
A(uint32_t, u32)
A(uint64_t, u64)
#define G(T, Q, S) \
    extern "C" void qah_ar_group_##S() { group<T>(Q); }
G(uint32_t, 3, u32_3)
G(uint32_t, 5, u32_5)
G(uint64_t, 7, u64_7)
G(uint32_t, 17, u32_17)
G(uint64_t, 31, u64_31)
G(uint32_t, 37, u32_37)
G(uint32_t, 97, u32_97)
G(uint32_t, 257, u32_257)
extern "C" void qah_ar_group_2_3() { group2<uint32_t>(3); }
extern "C" void qah_ar_group_2_4() { group2<uint32_t>(4); }
extern "C" void qah_ar_group_2_2() { group2<uint64_t>(2); }
extern "C" void qah_ar_group_2_8() { group2<uint32_t>(8); }
