// Instantiates the whole public API, for the rules over the call graph.
#include "quadiron.h"
#include "quadiron_c.h"
#include "fft_2.h"
#include "fft_2n.h"
#include "fft_add.h"
#include "fft_ct.h"
#include "fft_gt.h"
#include "fft_large.h"
#include "fft_naive.h"
#include "fft_single.h"
#include "gf_bin_ext.h"
#include "gf_nf4.h"
#include "gf_prime.h"
#include "vec_matrix.h"
#include "vec_poly.h"
#include "vec_slice.h"
#include "vec_view.h"
#include "vec_zero_ext.h"
#include "vec_cast.h"

namespace quadiron {
#define T2(C) \
    template class C<uint32_t>; \
    template class C<uint64_t>;
T2(fec::FecCode)
T2(fec::DecodeContext)
T2(fft::FourierTransform)
T2(gf::Field)
T2(fec::RsFnt)
T2(fec::RsGf2n)
T2(fec::RsGf2nFft)
T2(fec::RsGf2nFftAdd)
T2(fec::RsGfpFft)
T2(fec::RsNf4)
template class fec::RsNf4<__uint128_t>;
template class gf::BinExtension<__uint128_t>;
template class gf::NF4<__uint128_t>;
T2(gf::RingModN)
T2(gf::Prime)
T2(gf::BinExtension)
T2(gf::NF4)
T2(fft::Radix2)
T2(fft::CooleyTukey)
T2(fft::GoodThomas)
T2(fft::Large)
T2(fft::Naive)
T2(fft::Single)
T2(fft::Size2)
T2(fft::Additive)
T2(vec::Matrix)
T2(vec::Poly)
T2(vec::Slice)
T2(vec::View)
T2(vec::ZeroExtended)
} // namespace quadiron

using namespace quadiron;
template <typename T>
void roots_of(gf::Field<T>& f, const std::vector<T*>& m, const std::vector<uint8_t*>& b)
{
    vec::Vector<T> v(f, 4), w(v), u(std::move(w));
    v = u;
    u = std::move(v);
    v.set_mem(u.get_mem(), 4);
    v.fill(1);
    v.zero_fill();
    v.mul_scalar(2);
    v.mul_beta(2);
    v.hadamard_mul(&u);
    v.add(&u);
    v.add(&u, 1);
    v.add_mutual(&u);
    v.add_mutual(&u, 1);
    v.add_mutual(&u, 1, 1);
    v.neg();
    v.copy(&u);
    v.copy(&u, 1);
    v.copy(&u, 1, 1);
    v.copy(&u, 1, 1, 1);
    v.sort();
    v.swap(0, 1);
    (void)(v == u);
    vec::Buffers<T> x(4, 4), y(x), z(x, 1, 2), a(x, y), r(4, 4, m), c(x, 2), d(x, u, 4);
    x.zero_fill();
    x.fill(0, 1);
    x.set(0, m[0]);
    x.copy(y);
    x.copy(0, m[0]);
    x.separate_even_odd();
    x.separate_even_odd(y, z);
    x.swap(0, 1);
    (void)(x == y);
    vec::pack<uint8_t, T>(b, m, 2, 3, 1);
    vec::unpack<T, uint8_t>(m, b, 2, 3, 1);
}
void roots(gf::Field<uint32_t>& f, gf::Field<uint64_t>& g, const std::vector<uint32_t*>& m,
           const std::vector<uint64_t*>& n, const std::vector<uint8_t*>& b)
{
    roots_of<uint32_t>(f, m, b);
    roots_of<uint64_t>(g, n, b);
}
