// C03: interval arithmetic is arithmetic on sets of integers
#include "mc.hpp"
#include <samurai/interval.hpp>
#include <samurai/utils.hpp>
using mc::u64;
using VT = VALUE_T;
using I  = samurai::Interval<VT, long long>;
using S  = std::set<long>;

static S elems(const I& i)
{
    S s;
    if (i.is_valid())
    {
        for (long x = i.start; x < i.end; x += i.step)
        {
            s.insert(x);
        }
    }
    return s;
}

static std::string str(const I& i)
{
    std::ostringstream os;
    os << "[" << long(i.start) << "," << long(i.end) << ") step " << long(i.step);
    return os.str();
}

int main(int argc, char** argv)
{
    mc::Run run(argc, argv);
    const long W = run.pick(40, 90);
    const u64 n  = static_cast<u64>(2 * W + 1);
    // window offsets: around zero, and far from it on both sides
    const std::vector<long> far = {0, sizeof(VT) > 2 ? 1000000 : 2000, sizeof(VT) > 2 ? -1000000 : -2000};
    run.family("unary",
               "every interval with ends in a window (3 window positions, valid or not): size, validity, membership, even/odd elements, all "
               "shifts, scalings, coarsenings and refinements up to a bound",
               n * n * far.size(),
               [&](u64 id, mc::Case& c)
               {
                   mc::Dec d(id);
                   long a = d.range(-W, W), b = d.range(-W, W);
                   long o = far[d.take(far.size())];
                   a += o;
                   b += o;
                   I i{static_cast<VT>(a), static_cast<VT>(b), 17};
                   DESC(c) << "[" << a << "," << b << ")";
                   const bool valid = a < b;
                   CHK(c, i.is_valid() == valid, "is_valid", "is_valid()");
                   for (long x = std::min(a, b) - 2; x <= std::max(a, b) + 2; ++x)
                   {
                       CHK(c, i.contains(static_cast<VT>(x)) == (x >= a && x < b), "contains", "contains(" + std::to_string(x) + ")");
                   }
                   I same{static_cast<VT>(a), static_cast<VT>(b), 17};
                   CHK(c, i == same && !(i != same), "eq", "equality");
                   if (!valid)
                   {
                       return;
                   }
                   CHK(c, i.size() == static_cast<std::size_t>(b - a), "size", "size()");
                   auto full = elems(i);
                   S ev, od;
                   for (long x : full)
                   {
                       (x % 2 == 0 ? ev : od).insert(x);
                   }
                   auto ie = i.even_elements();
                   auto io = i.odd_elements();
                   CHK(c, elems(ie) == ev && ie.is_valid() == !ev.empty(), "even", "even_elements() = " + str(ie));
                   CHK(c, elems(io) == od && io.is_valid() == !od.empty(), "odd", "odd_elements() = " + str(io));
                   CHK(c, ie.index == i.index && io.index == i.index, "index", "index kept by even/odd");
                   for (long k = -9; k <= 9; ++k)
                   {
                       S want;
                       for (long x : full)
                       {
                           want.insert(x + k);
                       }
                       auto r1 = i + static_cast<VT>(k), r2 = static_cast<VT>(k) + i, r3 = i - static_cast<VT>(-k);
                       CHK(c, elems(r1) == want && r1 == r2 && r1 == r3, "shift", "shift by " + std::to_string(k) + " gives " + str(r1));
                       CHK(c, r1.index == i.index, "index", "index kept by shift");
                   }
                   for (long k = 1; k <= 9; ++k)
                   {
                       S want;
                       for (long x : full)
                       {
                           want.insert(x * k);
                       }
                       auto r1 = i * static_cast<VT>(k), r2 = static_cast<VT>(k) * i;
                       CHK(c, elems(r1) == want && r1 == r2, "scale", "scaling by " + std::to_string(k) + " gives " + str(r1));
                       auto r3 = i / static_cast<VT>(k);
                       CHK(c, r3.start == mc::fdiv(a, k) && r3.end == -mc::fdiv(-b, k) && r3.step == 1,
                               "divide",
                               "division by " + std::to_string(k) + " gives " + str(r3));
                   }
                   for (unsigned k = 0; k <= 6; ++k)
                   {
                       long m = 1l << k;
                       S want;
                       for (long x : full)
                       {
                           want.insert(mc::fdiv(x, m));
                       }
                       auto r = i >> k;
                       CHK(c, elems(r) == want, "coarsen", "coarsening by " + std::to_string(k) + " gives " + str(r));
                       CHK(c, r.index == i.index, "index", "index kept by coarsening");
                       if (k <= 3)
                       {
                           S w2;
                           for (long x : full)
                           {
                               for (long q = 0; q < m; ++q)
                               {
                                   w2.insert(x * m + q);
                               }
                           }
                           auto r2 = i << k;
                           CHK(c, elems(r2) == w2, "refine", "refining by " + std::to_string(k) + " gives " + str(r2));
                           CHK(c, ((i << k) >> k) == i, "refine-coarsen", "coarsening the refinement by " + std::to_string(k));
                       }
                   }
                   c.transitions(50);
                   c.outcome(mc::mix(static_cast<u64>(a + 5000000), static_cast<u64>(b + 5000000)));
               });
    const long V = run.pick(7, 10);
    const u64 m  = static_cast<u64>(2 * V + 1);
    run.family("binary",
               "every pair of intervals with ends in a window: equality holds exactly for the same ends, order is by start",
               mc::ipow(m, 4),
               [&](u64 id, mc::Case& c)
               {
                   mc::Dec d(id);
                   long a = d.range(-V, V), b = d.range(-V, V), e = d.range(-V, V), f = d.range(-V, V);
                   I i{static_cast<VT>(a), static_cast<VT>(b)}, j{static_cast<VT>(e), static_cast<VT>(f)};
                   DESC(c) << "[" << a << "," << b << ") [" << e << "," << f << ")";
                   CHK(c, (i == j) == (a == e && b == f) && (i != j) == !(i == j), "eq", "equality");
                   CHK(c, (i < j) == (a < e), "less", "order");
                   auto k = i;
                   k.step = 2;
                   CHK(c, !(k == i), "eq-step", "intervals with different steps compare equal");
               });
    return run.finish();
}
