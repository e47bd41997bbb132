// Entry states for object lifetimes: every class of the library is created,
// copied, moved, assigned and destroyed in every way it allows; each
// allocation must be released once, by the matching function.
#include "qa.h"
#include "quadiron.h"
#include "fft_ct.h"
#include "fft_gt.h"
#include "fft_naive.h"
#include "fft_single.h"
#include <type_traits>
// the search for a primitive root of the packed field is long and its result
// is not used: start from a field which has one
namespace quadiron {
namespace gf {
template <>
NF4<uint64_t> create<NF4<uint64_t>, int>(int n)
{
    NF4<uint64_t> f(n);
    f.root = 3;
    f.init();
    return f;
}
} // namespace gf
} // namespace quadiron
using namespace quadiron;

typedef gf::Prime<uint32_t> F32;
typedef gf::BinExtension<uint32_t> B32;
typedef gf::NF4<uint64_t> N64;

template <bool B>
using tag = std::integral_constant<bool, B>;

// `use` reads the whole object and returns a digest of it
template <typename T, typename Make, typename Use>
struct Life {
    Make make;
    Use use;

    void copy_construct(tag<true>)
    {
        T a(make());
        uint64_t v = use(a);
        {
            T b(a);
            qa_eq(use(b), v, "copies hold the value");
        }
        qa_eq(use(a), v, "copying leaves the source alone");
    }
    void copy_construct(tag<false>) {}
    void move_construct(tag<true>)
    {
        T a(make());
        uint64_t v = use(a);
        {
            T b(std::move(a));
            qa_eq(use(b), v, "moves keep the value");
        }
    }
    void move_construct(tag<false>) {}
    void copy_assign(tag<true>)
    {
        T a(make());
        uint64_t v = use(a);
        {
            T b(make());
            b = a;
            qa_eq(use(b), v, "copies hold the value");
            b = a;
        }
        qa_eq(use(a), v, "copying leaves the source alone");
    }
    void copy_assign(tag<false>) {}
    void move_assign(tag<true>)
    {
        T a(make());
        uint64_t v = use(a);
        {
            T b(make());
            b = std::move(a);
            qa_eq(use(b), v, "moves keep the value");
        }
    }
    void move_assign(tag<false>) {}

    void run()
    {
        uint64_t before = qa_live();
        {
            T a(make());
            use(a);
        }
        qa_eq(qa_live(), before, "everything is released");
        copy_construct(tag<std::is_copy_constructible<T>::value>());
        qa_eq(qa_live(), before, "everything is released");
        move_construct(tag<std::is_move_constructible<T>::value>());
        qa_eq(qa_live(), before, "everything is released");
        copy_assign(tag<std::is_copy_assignable<T>::value>());
        qa_eq(qa_live(), before, "everything is released");
        move_assign(tag<std::is_move_assignable<T>::value>());
        qa_eq(qa_live(), before, "everything is released");
        qa_done();
    }
};

template <typename T, typename Make, typename Use>
static void life(Make m, Use u)
{
    Life<T, Make, Use>{m, u}.run();
}

extern "C" void qah_own_vector()
{
    auto f(gf::create<F32>(257));
    static const gf::Field<uint32_t>* g;
    g = &f;
    life<vec::Vector<uint32_t>>(
        [] {
            vec::Vector<uint32_t> v(*g, 5);
            for (int i = 0; i < 5; ++i)
                v.set(i, 3 + i);
            return v;
        },
        [](vec::Vector<uint32_t>& v) {
            uint64_t s = v.get_n();
            for (int i = 0; i < v.get_n(); ++i)
                s = s * 31 + v.get(i);
            return s + v.get_mem_len() + (v.rn == g);
        });
    // a wrapper does not own its memory
    uint32_t mem[5] = {1, 2, 3, 4, 5};
    static uint32_t* m;
    m = mem;
    life<vec::Vector<uint32_t>>(
        [] { return vec::Vector<uint32_t>(*g, 5, m, 5); },
        [](vec::Vector<uint32_t>& v) {
            uint64_t s = v.get_n();
            for (int i = 0; i < v.get_n(); ++i)
                s = s * 31 + v.get(i);
            return s;
        });
    // an owner which is given other memory releases its own
    uint64_t before = qa_live();
    {
        vec::Vector<uint32_t> v(*g, 4);
        v.set_mem(mem, 4);
        qa_eq(v.get(2), 3, "set_mem switches to the given memory");
    }
    qa_eq(qa_live(), before, "everything is released");
}

static uint64_t sum(vec::Buffers<uint32_t>& b)
{
    uint64_t s = b.get_n() * 1000 + b.get_size();
    for (int i = 0; i < b.get_n(); ++i)
        for (size_t j = 0; j < b.get_size(); ++j)
            s = s * 31 + b.get(i)[j];
    return s;
}

static void numbered(vec::Buffers<uint32_t>& b)
{
    for (int i = 0; i < b.get_n(); ++i)
        for (size_t j = 0; j < b.get_size(); ++j)
            b.get(i)[j] = uint32_t(10 * i + j + 1);
}

extern "C" void qah_own_buffers()
{
    static vec::Buffers<uint32_t>* base;
    vec::Buffers<uint32_t> b0(4, 3);
    numbered(b0);
    base = &b0;
    auto use = [](vec::Buffers<uint32_t>& b) { return sum(b); };
    auto f(gf::create<F32>(257));
    static vec::Vector<uint32_t>* map;
    vec::Vector<uint32_t> mp(f, {3, 2, 0, 1});
    map = &mp;
    static std::vector<uint32_t*>* raw;
    uint32_t mem[2][3] = {{1, 2, 3}, {4, 5, 6}};
    std::vector<uint32_t*> rv{mem[0], mem[1]};
    raw = &rv;
    typedef vec::Buffers<uint32_t> B;
    // fully owned
    life<B>(
        [] {
            B b(3, 4);
            numbered(b);
            return b;
        },
        use);
    // deep copy, shorter and extended
    life<B>([] { return B(*base, 2); }, use);
    life<B>([] { return B(*base, 6); }, use);
    uint64_t before = qa_live();
    {
        B v1(*base, 1, 3);            // slice
        B v2(*base, 2, 6);            // zero-extended
        B v3(v1, v2);                 // both
        B v4(*base, *map, 4);         // permuted
        B v5(*base, *map, 6);         // permuted and extended
        B v6(2, 3, *raw);             // borrowed
        B c1(v1), c2(v2), c3(v3), c4(v4), c5(v5), c6(v6); // copies own
        B w1(v1, 0, 4), w2(v2, 1, 3), w3(v5, 2, 7), w4(v4, 1, 6);
        qa_eq(sum(c1), sum(v1), "copies hold the value");
        qa_eq(sum(c2), sum(v2), "copies hold the value");
        qa_eq(sum(c3), sum(v3), "copies hold the value");
        qa_eq(sum(c4), sum(v4), "copies hold the value");
        qa_eq(sum(c5), sum(v5), "copies hold the value");
        qa_eq(sum(c6), sum(v6), "copies hold the value");
        sum(w1);
        sum(w2);
        sum(w3);
        sum(w4);
    }
    qa_eq(qa_live(), before, "everything is released");
    {
        B v(2, 3, *raw);
        uint32_t other[3] = {7, 8, 9};
        v.set(1, other);
        qa_eq(v.get(1)[2], 9, "set replaces a borrowed buffer");
    }
    qa_eq(qa_live(), before, "everything is released");
    qa_eq(mem[1][0], 4, "set replaces a borrowed buffer");
    qa_done();
}

extern "C" void qah_own_poly()
{
    auto f(gf::create<F32>(257));
    static const gf::Field<uint32_t>* g;
    g = &f;
    typedef vec::Poly<uint32_t> P;
    life<P>(
        [] {
            P p(*g, 5);
            p.zero_fill();
            p.set(3, 4);
            p.set(0, 5);
            return p;
        },
        [](P& p) {
            uint64_t s = p.get_deg();
            for (int i = 0; i <= p.get_deg(); ++i)
                s = s * 31 + p.get(i);
            return s;
        });
}

static const gf::Field<uint32_t>* g_f;
template <typename T>
static void copies(tag<true>, T& a)
{
    T b(a);
    b.set(0, 0, 1);
}
template <typename T>
static void copies(tag<false>, T&) {}
template <typename T>
static void assigns(tag<true>, T& a)
{
    T b(*g_f, 2, 2);
    b = a;
}
template <typename T>
static void assigns(tag<false>, T&) {}

extern "C" void qah_own_matrix()
{
    auto f(gf::create<F32>(257));
    const gf::Field<uint32_t>* g = &f;
    g_f = &f;
    typedef vec::Matrix<uint32_t> M;
    uint64_t before = qa_live();
    {
        M m(*g, 3, 3);
        m.vandermonde();
        m.inv();
    }
    qa_eq(qa_live(), before, "everything is released");
    static M* src;
    {
        M m0(*g, 2, 2);
        m0.cauchy();
        src = &m0;
        copies(tag<std::is_copy_constructible<M>::value>(), *src);
        assigns(tag<std::is_copy_assignable<M>::value>(), *src);
    }
    qa_eq(qa_live(), before, "everything is released");
    qa_done();
}

// fields can be moved: the target works, the source can be destroyed
template <typename F, typename A>
static void field_life(A arg, uint64_t x, uint64_t y)
{
    uint64_t before = qa_live();
    {
        F a(gf::create<F>(arg));
        auto p = a.mul(x, y);
        auto d = a.div(x, y);
        auto e = a.exp(x, 5);
        {
            F b(std::move(a));
            qa_eq(b.mul(x, y), p, "moves keep the value");
            qa_eq(b.div(x, y), d, "moves keep the value");
            qa_eq(b.exp(x, 5), e, "moves keep the value");
            F c(std::move(b));
            qa_eq(c.mul(x, y), p, "moves keep the value");
            qa_eq(c.get_root(), c.get_root(), "moves keep the value");
        }
    }
    qa_eq(qa_live(), before, "everything is released");
    if (!std::is_same<F, N64>::value) {
        auto p = gf::alloc<gf::Field<typename std::decay<decltype(
                               std::declval<F&>().card())>::type>,
                           F>(arg);
        p->mul(x, y);
    }
    qa_eq(qa_live(), before, "everything is released");
    qa_done();
}
extern "C" void qah_own_prime() { field_life<F32>(257, 5, 7); }
extern "C" void qah_own_bin4() { field_life<B32>(4, 5, 7); }
extern "C" void qah_own_bin8() { field_life<B32>(8, 5, 7); }
extern "C" void qah_own_bin32() { field_life<B32>(32, 5, 7); }
extern "C" void qah_own_nf4() { field_life<N64>(2, (5ull << 32) | 6, (7ull << 32) | 9); }

// transforms: created, used, copied where that is allowed, destroyed
template <typename T, bool Copy = std::is_copy_constructible<T>::value>
struct Dup {
    static void run(T& t, vec::Vector<uint32_t>& o, vec::Vector<uint32_t>& i)
    {
        T u(t);
        u.fft(o, i);
    }
};
template <typename T>
struct Dup<T, false> {
    static void run(T&, vec::Vector<uint32_t>&, vec::Vector<uint32_t>&) {}
};
template <typename T>
static void fft_use(T& t, const gf::Field<uint32_t>& f, int n)
{
    vec::Vector<uint32_t> i(f, n), o(f, n);
    for (int k = 0; k < n; ++k)
        i.set(k, k + 1);
    t.fft(o, i);
    t.ifft(i, o);
    Dup<T>::run(t, o, i);
    t.fft(o, i);
}
extern "C" void qah_own_fft()
{
    auto f(gf::create<F32>(31));
    auto g(gf::create<F32>(257));
    uint64_t before = qa_live();
    {
        fft::Naive<uint32_t> t(f, 5, f.get_nth_root(5));
        fft_use(t, f, 5);
    }
    qa_eq(qa_live(), before, "everything is released");
    {
        fft::CooleyTukey<uint32_t> t(f, 6);
        fft_use(t, f, 6);
    }
    qa_eq(qa_live(), before, "everything is released");
    {
        fft::GoodThomas<uint32_t> t(f, 6);
        fft_use(t, f, 6);
    }
    qa_eq(qa_live(), before, "everything is released");
    {
        fft::CooleyTukey<uint32_t> t(f, 30);
        fft_use(t, f, 30);
    }
    qa_eq(qa_live(), before, "everything is released");
    {
        fft::GoodThomas<uint32_t> t(f, 30);
        fft_use(t, f, 30);
    }
    qa_eq(qa_live(), before, "everything is released");
    {
        fft::Size2<uint32_t> t(f);
        fft_use(t, f, 2);
    }
    qa_eq(qa_live(), before, "everything is released");
    {
        fft::Single<uint32_t> t(f, 4);
        fft_use(t, f, 4);
    }
    qa_eq(qa_live(), before, "everything is released");
    {
        fft::Radix2<uint32_t> t(g, 8, 8, 4);
        fft_use(t, g, 8);
    }
    qa_eq(qa_live(), before, "everything is released");
    {
        auto b(gf::create<B32>(4));
        fft::Additive<uint32_t> t(b, 3);
        fft_use(t, b, 8);
    }
    qa_eq(qa_live(), before, "everything is released");
    qa_done();
}

// codes: created, used and destroyed
template <typename C>
static void code_use(C& c, int k, int nout, bool sys, size_t bs)
{
    std::vector<uint8_t*> d, o;
    std::vector<std::vector<uint8_t>> md(k, std::vector<uint8_t>(bs)),
        mo(nout, std::vector<uint8_t>(bs));
    for (int i = 0; i < k; ++i) {
        for (size_t j = 0; j < bs; ++j)
            md[i][j] = uint8_t(3 * i + j);
        d.push_back(md[i].data());
    }
    for (auto& x : mo)
        o.push_back(x.data());
    std::vector<Properties> props(nout);
    std::vector<bool> wo(nout, true), wd(k, true);
    c.encode_blocks_vertical(d, o, props, wo, bs);
    std::vector<int> missing(c.code_len, 0);
    missing[0] = 1;
    if (!sys)
        props[0].clear();
    c.decode_blocks_vertical(
        d, o, props, missing, wd, bs);
}
extern "C" void qah_own_fnt()
{
    uint64_t before = qa_live();
    {
        fec::RsFnt<uint32_t> c(fec::FecType::SYSTEMATIC, 2, 3, 2, 4);
        code_use(c, 3, 2, true, 12);
    }
    qa_eq(qa_live(), before, "everything is released");
    {
        fec::RsFnt<uint32_t> c(fec::FecType::NON_SYSTEMATIC, 1, 2, 2, 4);
        code_use(c, 2, 4, false, 6);
    }
    qa_eq(qa_live(), before, "everything is released");
    qa_done();
}
