// Entry states for packing and unpacking: every byte is arbitrary, buffers
// have exactly the size that is needed.
#include "qa.h"
#include "quadiron.h"
#include "vec_cast.h"
#include <vector>
using namespace quadiron;

template <typename T>
static void one(size_t ws, int n, size_t size)
{
    std::vector<uint8_t*> src, back;
    std::vector<T*> mid;
    std::vector<uint64_t> id;
    for (int i = 0; i < n; ++i) {
        src.push_back(static_cast<uint8_t*>(qa_buf(size * ws, "bytes")));
        back.push_back(static_cast<uint8_t*>(qa_buf(size * ws, "restored")));
        mid.push_back(static_cast<T*>(qa_buf(size * sizeof(T), "symbols")));
        // uninitialised memory is never read
        if (size) {
            qa_fill(src[i], size * ws, 1, 0, 255, "b");
            id.push_back(qa_snap(src[i], size * ws));
        }
    }
    vec::pack<uint8_t, T>(src, mid, n, size, ws);
    for (int i = 0; i < n; ++i)
        for (size_t j = 0; j < size; ++j) {
            const uint8_t* m = reinterpret_cast<uint8_t*>(mid[i] + j);
            for (size_t b = 0; b < sizeof(T); ++b)
                qa_eq(m[b], b < ws ? src[i][j * ws + b] : 0, "symbol is the little-endian word");
        }
    vec::unpack<T, uint8_t>(mid, back, n, size, ws);
    for (int i = 0; i < n && size; ++i) {
        qa_eq_mem(back[i], src[i], size * ws, 1, "bytes restored");
        qa_unchanged(src[i], size * ws, id[i], "packing leaves the bytes alone");
    }
    // unpacking keeps the low bytes of any symbol
    for (int i = 0; i < n; ++i)
        for (size_t j = 0; j < size; ++j) {
            uint8_t* m = reinterpret_cast<uint8_t*>(mid[i] + j);
            qa_fill(m, sizeof(T), 1, 0, 255, "s");
        }
    vec::unpack<T, uint8_t>(mid, back, n, size, ws);
    for (int i = 0; i < n; ++i)
        for (size_t j = 0; j < size; ++j) {
            const uint8_t* m = reinterpret_cast<uint8_t*>(mid[i] + j);
            for (size_t b = 0; b < ws; ++b)
                qa_eq(back[i][j * ws + b], m[b], "word is the low part of the symbol");
        }
    for (int i = 0; i < n; ++i) {
        // the same memory seen as bytes
        vec::Buffers<T> bufs(n, size, mid);
        std::vector<uint8_t*>* c = vec::cast_mem_of_vecp<T, uint8_t>(&bufs);
        qa_true(c->size() == size_t(n) &&
                    c->at(i) == reinterpret_cast<uint8_t*>(mid[i]),
                "cast refers to the same memory");
        delete c;
    }
}

template <typename T>
static void all()
{
    for (size_t ws = 1; ws <= sizeof(T); ws *= 2)
        for (size_t size : {0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 33})
            for (int n = 1; n <= (size < 9 ? 3 : 1); ++n)
                one<T>(ws, n, size);
    qa_done();
}
extern "C" void qah_cast_u16() { all<uint16_t>(); }
extern "C" void qah_cast_u32() { all<uint32_t>(); }
extern "C" void qah_cast_u64() { all<uint64_t>(); }
extern "C" void qah_cast_u128() { all<__uint128_t>(); }
