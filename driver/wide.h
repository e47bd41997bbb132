// Sets of fragments.
#pragma once
#include <bitset>
using Lost = std::bitset<512>;
static bool data_lost(const Lost& l, int k)
{
    for (int i = 0; i < k; ++i)
        if (l[i])
            return true;
    return false;
}
// long codes: a few ways to lose m of n fragments
static Lost wide_loss(int which, int k, int m)
{
    Lost l;
    const int n = k + m;
    unsigned x = 12345;
    for (int j = 0; j < m; ++j)
        switch (which) {
        case 0: l[j] = 1; break;                               // the first ones
        case 1: l[j * n / m + n / m - 1] = 1; break;           // spread, the last one
        case 2: l[(k - m / 2 + j) % n] = 1; break;             // data and parities
        case 3: l[k - 1] = 1; break;                           // one
        case 4: l[n - 1 - j] = 1; break;                       // the last ones
        // nearly the same as one of the above
        case 6: l[j ? j : n > 64 ? 64 : m] = 1; break;
        case 7: l[j ? j : n > 32 ? 32 : m + 1] = 1; break;
        case 8: l[j * n / m + n / m - (j ? 1 : 2)] = 1; break;
        case 9: l[j * n / m + n / m - (j == 0 ? 2 : 1) + (j == 1 && n / m > 1)] = 1; break;
        default:
            do
                x = x * 1103515245u + 12345u;
            while (l[(x >> 8) % n]);
            l[(x >> 8) % n] = 1;
        }
    return l;
}

