// Entry states for the fragment headers: any marker list, any header bytes.
#include "qa.h"
#include "quadiron.h"
#include <netinet/in.h>
using namespace quadiron;

static uint32_t* words(size_t n, const char* name)
{
    return static_cast<uint32_t*>(qa_buf(4 * n, name));
}
static const uint8_t magic[4] = {'F', 'N', 'T', '1'};

static void put32(uint8_t* p, uint32_t v)
{
    p[0] = uint8_t(v >> 24);
    p[1] = uint8_t(v >> 16);
    p[2] = uint8_t(v >> 8);
    p[3] = uint8_t(v);
}

// any list of n markers into a header of cap words, then back
static void write_one(uint64_t a)
{
    const unsigned n = a & 15, cap = unsigned(a >> 4);
    Properties p;
    std::vector<uint32_t> loc(n);
    for (unsigned i = 0; i < n; ++i) {
        loc[i] = uint32_t(qa_u(0, 0xffffffffu, "location"));
        p.add(loc[i], OOR_MARK);
    }
    uint32_t* h = words(cap, "header");
    const bool fits = n + 2 <= cap;
    if (!fits)
        qa_fill(h, cap, 4, 0, 0xffffffffu, "old");
    uint64_t snap = fits ? 0 : qa_snap(h, 4 * cap);
    int r = p.fnt_serialize(h, cap);
    if (!fits) {
        qa_true(r == -1, "a list which does not fit is refused");
        qa_unchanged(h, 4 * cap, snap, "a refused list writes nothing");
        qa_done();
        return;
    }
    qa_true(r == 0, "a list which fits is accepted");
    uint8_t* e = static_cast<uint8_t*>(qa_buf(4 * cap, "expected"));
    for (int b = 0; b < 4; ++b)
        e[b] = magic[b];
    put32(e + 4, n);
    for (unsigned i = 0; i < n; ++i)
        put32(e + 8 + 4 * i, loc[i]);
    for (unsigned i = 8 + 4 * n; i < 4 * cap; ++i)
        e[i] = 0;
    qa_eq_mem(h, e, 4 * cap, 1, "header bytes");
    Properties o;
    r = o.fnt_deserialize(h, cap);
    qa_true(r == 0, "a written header is accepted");
    qa_true(o.get_map().size() == n, "every marker comes back");
    for (unsigned i = 0; i < n; ++i) {
        qa_eq(o.location(i), loc[i], "marker location");
        qa_eq(o.marker(i), OOR_MARK, "marker value");
    }
    qa_done();
}

static void wide_one(uint64_t at)
{
    Properties p;
    for (unsigned i = 0; i < 3; ++i)
        p.add(i == at ? qa_u(uint64_t(1) << 32, ~uint64_t(0), "location")
                      : qa_u(0, 0xffffffffu, "location"),
              OOR_MARK);
    uint32_t* h = words(8, "header");
    int r = p.fnt_serialize(h, 8);
    qa_true(r == -1, "a location above 32 bits is refused");
    qa_done();
}

extern "C" void qah_hdr_write()
{
    for (unsigned cap = 0; cap <= 20; ++cap)
        for (unsigned n = 0; n <= 12; ++n)
            qa_scope(write_one, (cap << 4) | n, "words<<4|markers");
}
extern "C" void qah_hdr_wide()
{
    for (unsigned i = 0; i < 3; ++i)
        qa_scope(wide_one, i, "position");
}

// any bytes
static void parse_any(uint64_t a)
{
    const unsigned cap = unsigned(a & 31), kind = unsigned(a >> 5);
    const uint32_t m = (uint32_t(magic[0]) << 24) | (uint32_t(magic[1]) << 16)
                       | (uint32_t(magic[2]) << 8) | magic[3];
    uint32_t* h = words(cap, "header");
    std::vector<uint32_t> v(cap);
    for (unsigned i = 0; i < cap; ++i) {
        uint64_t lo = 0, hi = 0xffffffffu;
        if (i == 0) {
            if (kind == 0)
                hi = m - 1;
            else if (kind == 1)
                lo = m + 1;
            else
                lo = hi = m;
        }
        if (i == 1 && kind == 2)
            lo = cap - 1;
        if (i == 1 && kind >= 3)
            lo = hi = kind - 3;
        v[i] = lo == hi ? uint32_t(lo) : uint32_t(qa_u(lo, hi, "word"));
        h[i] = htonl(v[i]);
    }
    uint64_t snap = qa_snap(h, 4 * cap);
    Properties p;
    int r = p.fnt_deserialize(h, cap);
    const bool good = cap >= 2 && kind >= 3;
    if (good) {
        const unsigned n = kind - 3;
        qa_true(r == 0, "a well-formed header is accepted");
        qa_true(p.get_map().size() == n, "every marker comes back");
        for (unsigned i = 0; i < n; ++i) {
            qa_eq(p.location(i), v[i + 2], "marker location");
            qa_eq(p.marker(i), OOR_MARK, "marker value");
        }
    } else {
        qa_true(r == -1, "a malformed header is refused");
        qa_true(p.get_map().empty(), "a refused header adds no marker");
    }
    qa_unchanged(h, 4 * cap, snap, "parsing leaves the header alone");
    qa_done();
}
extern "C" void qah_hdr_parse()
{
    for (unsigned cap = 0; cap <= 14; ++cap)
        for (unsigned kind = 0; kind < 3 + (cap >= 2 ? cap - 1 : 0); ++kind)
            qa_scope(parse_any, (kind << 5) | cap, "kind<<5|words");
}

// queries on a list of n markers
static void query(uint64_t n)
{
    Properties p;
    size_t loc[8];
    uint32_t mk[8];
    for (unsigned i = 0; i < n; ++i) {
        loc[i] = qa_u(0, ~uint64_t(0), "location");
        mk[i] = uint32_t(qa_u(0, 0xffffffffu, "marker"));
        p.add(loc[i], mk[i]);
    }
    for (unsigned i = 0; i < 8; ++i) {
        const bool in = i < n;
        qa_eq(p.location(i), in ? loc[i] : 0, "location by index");
        qa_eq(p.marker(i), in ? mk[i] : 0, "marker by index");
        size_t x = qa_u(0, ~uint64_t(0), "x"), y = qa_u(0, ~uint64_t(0), "y");
        bool want = in && loc[i] == x;
        qa_true(p.is_marked(i, x) == want, "is_marked");
        want = in && loc[i] >= x && loc[i] < y;
        qa_true(p.in_range(i, x, y) == want, "in_range");
    }
    p.clear();
    qa_true(p.get_map().empty(), "clear");
    qa_done();
}
extern "C" void qah_hdr_query()
{
    for (unsigned n = 0; n <= 3; ++n)
        qa_scope(query, n, "markers");
}
static void sorted(uint64_t n)
{
    Properties p;
    for (unsigned i = 0; i < n; ++i)
        p.add(qa_u(0, ~uint64_t(0), "location"), OOR_MARK);
    p.sort();
    qa_true(p.get_map().size() == n, "sort keeps every marker");
    for (unsigned i = 1; i < n; ++i)
        qa_true(p.location(i - 1) <= p.location(i), "sorted by location");
    qa_done();
}
extern "C" void qah_hdr_sort()
{
    for (unsigned n = 0; n <= 3; ++n)
        qa_scope(sorted, n, "markers");
}
