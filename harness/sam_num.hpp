// Reference numerics: exact polynomial prediction weights (independent of samurai's coefficient tables).
#pragma once
#include "sam.hpp"

namespace sam
{
    // weights w[0..2s] such that sum_j w_j * (average over the unit cell j-s) is the average over the left (side=0) or
    // right (side=1) half of the unit cell 0, exact for all polynomials of degree 2s
    inline std::vector<double> pred_weights(int s, int side)
    {
        static std::map<int, std::vector<double>> cache;
        auto it = cache.find(2 * s + side);
        if (it != cache.end())
        {
            return it->second;
        }
        const int n = 2 * s + 1;
        std::vector<std::vector<long double>> A(n, std::vector<long double>(n + 1));
        auto mom = [](long double a, long double b, int k)
        {
            return (std::pow(b, static_cast<long double>(k + 1)) - std::pow(a, static_cast<long double>(k + 1))) / ((k + 1) * (b - a));
        };
        for (int k = 0; k < n; ++k)
        {
            for (int j = 0; j < n; ++j)
            {
                A[k][j] = mom(j - s - 0.5L, j - s + 0.5L, k);
            }
            A[k][n] = side ? mom(0, 0.5L, k) : mom(-0.5L, 0, k);
        }
        for (int c = 0; c < n; ++c)
        {
            int p = c;
            for (int r = c; r < n; ++r)
            {
                if (std::abs(A[r][c]) > std::abs(A[p][c]))
                {
                    p = r;
                }
            }
            std::swap(A[c], A[p]);
            for (int r = 0; r < n; ++r)
            {
                if (r != c)
                {
                    long double f = A[r][c] / A[c][c];
                    for (int k = c; k <= n; ++k)
                    {
                        A[r][k] -= f * A[c][k];
                    }
                }
            }
        }
        std::vector<double> w(n);
        for (int c = 0; c < n; ++c)
        {
            w[c] = static_cast<double>(A[c][n] / A[c][c]);
        }
        cache[2 * s + side] = w;
        return w;
    }

    // weight of the coarse cell parent(child)+o for the predicted value of child
    template <std::size_t D>
    double pred_weight(int s, const Pos<D>& child, const Pos<D>& o)
    {
        double w = 1;
        for (std::size_t d = 0; d < D; ++d)
        {
            if (o[d] < -s || o[d] > s)
            {
                return 0;
            }
            w *= pred_weights(s, child[d] & 1)[static_cast<std::size_t>(o[d] + s)];
        }
        return w;
    }

    // Known finding N01-mixed: samurai's 2D/3D prediction operators negate the terms coupling two directions and, for
    // orders above one, drop some of the coupling terms.  This is the exact weight those operators apply.
    template <std::size_t D>
    double pred_weight_known(int s, const Pos<D>& child, const Pos<D>& o)
    {
        double w  = pred_weight<D>(s, child, o);
        int nz    = 0;
        int prev  = 0;
        bool keep = true;
        for (std::size_t d = 0; d < D; ++d)
        {
            if (o[d] != 0)
            {
                const int a = std::abs(o[d]);
                if (nz > 0)
                {
                    keep = keep && (prev < s ? a >= prev + 1 : a == s);
                }
                prev = a;
                ++nz;
            }
        }
        if (nz < 2)
        {
            return w;
        }
        return keep ? (nz == 2 ? -w : w) : 0.;
    }

    // predicted value of child from get(coarse position)
    template <std::size_t D, class G>
    double predict(int s, const Pos<D>& child, G&& get, bool known = false)
    {
        Pos<D> par, lo, hi;
        for (std::size_t d = 0; d < D; ++d)
        {
            par[d] = child[d] >> 1;
        }
        lo.fill(-s);
        hi.fill(s + 1);
        double v = 0;
        for_box<D>(lo, hi,
                   [&](const Pos<D>& o)
                   {
                       Pos<D> q;
                       for (std::size_t d = 0; d < D; ++d)
                       {
                           q[d] = par[d] + o[d];
                       }
                       double w = known ? pred_weight_known<D>(s, child, o) : pred_weight<D>(s, child, o);
                       if (w != 0)
                       {
                           v += w * get(q);
                       }
                   });
        return v;
    }

    // average over the cell of level l at p (unit level-0 cells) of prod_d x_d^e_d
    template <std::size_t D>
    double mono_avg(int level, const Pos<D>& p, const Pos<D>& e, double scal = 1., double org = 0.)
    {
        double r = 1;
        const double h = scal / (1 << level);
        for (std::size_t d = 0; d < D; ++d)
        {
            double a = org + p[d] * h, b = a + h, s = 0;
            // (b^{k+1}-a^{k+1})/((k+1)(b-a)) = sum a^i b^{k-i} / (k+1)
            for (int i = 0; i <= e[d]; ++i)
            {
                s += std::pow(a, i) * std::pow(b, e[d] - i);
            }
            r *= s / (e[d] + 1);
        }
        return r;
    }
}
