// Stand-in for ALGLIB's agglomerative hierarchical clustering: the same kind of merge list (z) by Lance-Williams
// updates; ties are broken towards the lower indices.
#pragma once
#include "ap.h"
#include <cmath>
#include <limits>
#include <vector>
namespace alglib
{
struct clusterizerstate
{
    real_2d_array pts{};
    int           metric{2}, algo{0};
};
struct ahcreport
{
    ae_int_t         terminationtype{1}, npoints{0};
    integer_2d_array z{};
};
inline void clusterizercreate(clusterizerstate& s)
{
    s = {};
}
inline void clusterizersetpoints(clusterizerstate& s, const real_2d_array& d, int metric)
{
    s.pts    = d;
    s.metric = metric;
}
inline void clusterizersetahcalgo(clusterizerstate& s, int a)
{
    s.algo = a;
}
inline void clusterizerrunahc(clusterizerstate& s, ahcreport& rep)
{
    const auto n = s.pts.rows();
    rep.npoints  = n;
    rep.z.setlength(n > 0 ? n - 1 : 0, 2);
    std::vector<ae_int_t>            id(static_cast<size_t>(n));
    std::vector<double>              sz(static_cast<size_t>(n), 1.0);
    std::vector<bool>                dead(static_cast<size_t>(n), false);
    std::vector<std::vector<double>> dm(static_cast<size_t>(n), std::vector<double>(static_cast<size_t>(n), 0.0));
    for (size_t i = 0; i < id.size(); ++i)
    {
        id[i] = static_cast<ae_int_t>(i);
        for (size_t j = 0; j < id.size(); ++j)
        {
            double x = 0;
            for (ae_int_t k = 0; k < s.pts.cols(); ++k)
            {
                const double d = s.pts(static_cast<ae_int_t>(i), k) - s.pts(static_cast<ae_int_t>(j), k);
                x += d * d;
            }
            dm[i][j] = std::sqrt(x);
        }
    }
    for (ae_int_t step = 0; step + 1 < n; ++step)
    {
        size_t a = 0, b = 0;
        double best = std::numeric_limits<double>::infinity();
        for (size_t i = 0; i < id.size(); ++i)
        {
            for (size_t j = i + 1; j < id.size(); ++j)
            {
                if (!dead[i] && !dead[j] && dm[i][j] < best)
                {
                    best = dm[i][j];
                    a    = i;
                    b    = j;
                }
            }
        }
        rep.z(step, 0) = id[a];
        rep.z(step, 1) = id[b];
        for (size_t k = 0; k < id.size(); ++k)
        {
            if (dead[k] || k == a || k == b)
            {
                continue;
            }
            const double x = dm[a][k], y = dm[b][k], na = sz[a], nb = sz[b], nk = sz[k];
            double       v = 0;
            switch (s.algo)
            {
                case 0: v = std::max(x, y); break;
                case 1: v = std::min(x, y); break;
                case 2: v = (na * x + nb * y) / (na + nb); break;
                case 3: v = 0.5 * (x + y); break;
                default:
                    v = std::sqrt(((na + nk) * x * x + (nb + nk) * y * y - nk * best * best) / (na + nb + nk));
                    break;
            }
            dm[a][k] = dm[k][a] = v;
        }
        sz[a] += sz[b];
        dead[b] = true;
        id[a]   = n + step;
    }
}
}  // namespace alglib
