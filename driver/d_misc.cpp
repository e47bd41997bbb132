// Random elements; predicted operation counts of the radix-2 transform.
#include "qa.h"
#include "quadiron.h"
#include "gf_bin_ext.h"
using namespace quadiron;

// any element drawn is an element of the field, and not zero
template <typename F>
static void drawn(F& f, uint64_t max)
{
    for (int i = 0; i < 3; ++i) {
        const auto r = f.rand();
        qa_true(r >= 1, "random elements are not zero");
        qa_true(r <= max, "random elements are in the field");
        qa_true(f.check(r), "random elements are accepted");
    }
    using T = decltype(f.rand());
    vec::Vector<T> v(f, 5);
    for (int i = 0; i < 5; ++i)
        v.set(i, 0);
    v.rand();
    for (int i = 0; i < 5; ++i)
        qa_true(v.get(i) <= max, "random vectors are over the field");
}
template <typename T>
static void prime(uint64_t p)
{
    auto f = gf::create<gf::Prime<T>>(T(p));
    drawn(f, p - 1);
    qa_true(f.check(0), "elements are accepted");
    qa_true(f.check(T(p - 1)), "elements are accepted");
    qa_true(!f.check(T(p)), "values beyond the field are refused");
    qa_done();
}
template <typename T>
static void binary(int n)
{
    auto f = gf::create<gf::BinExtension<T>>(n);
    drawn(f, n == 64 ? ~uint64_t(0) : (uint64_t(1) << n) - 1);
    qa_done();
}
extern "C" void qah_rand_257() { prime<uint16_t>(257); }
extern "C" void qah_rand_257_32() { prime<uint32_t>(257); }
extern "C" void qah_rand_65537() { prime<uint32_t>(65537); }
extern "C" void qah_rand_65537_64() { prime<uint64_t>(65537); }
extern "C" void qah_rand_4294991873() { prime<uint64_t>(4294991873ull); }
extern "C" void qah_rand_4() { binary<uint32_t>(4); }
extern "C" void qah_rand_8() { binary<uint32_t>(8); }
extern "C" void qah_rand_16() { binary<uint32_t>(16); }
extern "C" void qah_rand_32() { binary<uint64_t>(32); }
extern "C" void qah_rand_64() { binary<uint64_t>(64); }

// A transform of n points of which the first d may be non-zero: every stage
// pairs n/2 times two points m apart; the factor of the s-th point of a block
// is the s-th power of a root of order 2m, so only the first one is trivial.
template <typename T>
static void counts(T p, unsigned top)
{
    auto f = gf::create<gf::Prime<T>>(p);
    for (unsigned n = 2; n <= top; n *= 2)
        for (unsigned d = 1; d <= n; d *= 2) {
            fft::Radix2<T> r(f, int(n), int(d), 1);
            for (unsigned in = 1; in <= n; ++in) {
                uint64_t b = 0, mul = 0;
                if (!(in & (in - 1)) || in <= d) {
                    for (unsigned m = n / (in > d ? in : d); m < n; m *= 2) {
                        b += n / 2;
                        mul += n / (2 * m) * (m - 1);
                    }
                    const fft::OpCounter c = r.fft_op_counter(in);
                    qa_eq(c.butterfly, b, "butterflies of the transform");
                    qa_eq(c.add, b, "additions of the transform");
                    qa_eq(c.sub, b, "subtractions of the transform");
                    qa_eq(c.mul, mul, "multiplications of the transform");
                    qa_eq(c.neg, 0, "negations of the transform");
                }
                b = mul = 0;
                uint64_t as = 0;
                for (unsigned m = n / 2; m; m /= 2) {
                    b += n / 2;
                    mul += n / (2 * m) * (m - 1);
                    if (m < in)
                        as += n / 2;
                }
                const fft::OpCounter c = r.ifft_op_counter(in);
                qa_eq(c.butterfly, b, "butterflies of the inverse");
                qa_eq(c.add, as, "additions of the inverse");
                qa_eq(c.sub, as, "subtractions of the inverse");
                qa_eq(c.mul, mul, "multiplications of the inverse");
                qa_eq(c.neg, 0, "negations of the inverse");
            }
        }
    qa_done();
}
extern "C" void qah_opc_257() { counts<uint16_t>(257, 32); }
extern "C" void qah_opc_65537() { counts<uint32_t>(65537, 32); }
