// Small explicit-enumeration driver shared by all harnesses.
//
// A harness declares "families" of cases.  A family is a finite space 0..N-1;
// every id is decoded (by the harness) into an input / configuration / history
// and executed on the real samurai code; the harness compares the observable
// result with an independent reference model.  The driver enumerates *all* ids
// (split over shards by id modulo nshards), counts, records violations, keeps
// a crash/hang marker so that a fatal signal is attributed to a case, and can
// replay a single case.
#pragma once
#include <algorithm>
#include <array>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

// evaluates the message only when the check fails
#define CHK(c, ok, ...) ((ok) ? true : ((c).fail(__VA_ARGS__), false))
// the same, and the case ends there
#define REQ(c, ok, ...) ((ok) ? true : ((c).fail(__VA_ARGS__), throw mc::Stop{}, false))
// description of the current case, built only when needed
#define DESC(c)            \
    if (!(c).describing) \
    {                      \
    }                      \
    else                   \
        (c).desc()

namespace mc
{
    using u64 = std::uint64_t;

    struct Stop
    {
    };

    inline u64 mix(u64 h, u64 v)
    {
        h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
        h *= 0xff51afd7ed558ccdull;
        h ^= h >> 33;
        return h;
    }

    inline u64 hash_str(const std::string& s)
    {
        u64 h = 1469598103934665603ull;
        for (unsigned char c : s)
        {
            h = (h ^ c) * 1099511628211ull;
        }
        return h;
    }

    struct Marker
    {
        char family[64];
        u64 id;
        u64 serial;
    };

    struct Violation
    {
        std::string family;
        u64 id;
        std::string sig; // signature: what fails, used for known findings
        std::string msg;
    };

    inline Marker* g_marker    = nullptr;
    inline u64 g_hang_serial   = 0;
    inline int g_hang_ticks    = 0;
    inline int g_hang_limit    = 60; // CPU seconds a single case may take
    __attribute__((no_sanitize("thread"))) inline void on_tick(int)
    {
        if (!g_marker)
        {
            return;
        }
        if (g_marker->serial == g_hang_serial)
        {
            if (++g_hang_ticks > g_hang_limit)
            {
                _exit(97);
            }
        }
        else
        {
            g_hang_serial = g_marker->serial;
            g_hang_ticks  = 0;
        }
    }

    // Mixed-radix decoder
    constexpr std::size_t cpow(std::size_t b, std::size_t e)
    {
        std::size_t r = 1;
        for (std::size_t i = 0; i < e; ++i)
        {
            r *= b;
        }
        return r;
    }

    struct Dec
    {
        u64 v;

        explicit Dec(u64 x)
            : v(x)
        {
        }

        u64 take(u64 n)
        {
            u64 r = v % n;
            v /= n;
            return r;
        }

        long range(long lo, long hi) // inclusive
        {
            return lo + static_cast<long>(take(static_cast<u64>(hi - lo + 1)));
        }

        bool flag()
        {
            return take(2) != 0;
        }
    };

    class Run;

    struct Case
    {
        Run& run;
        const std::string& family;
        u64 id;
        bool failed     = false;
        bool describing = true; // only then are descriptions built
        std::ostringstream desc_;

        std::ostream& desc()
        {
            return desc_;
        }

        void fail(const std::string& sig, const std::string& msg);

        // a failure with the exact shape of a listed known finding: reported once per family and signature, with a
        // count, and without stopping the enumeration; it is a violation unless known_findings.json lists it
        void finding(const std::string& sig, const std::string& msg);

        void outcome(u64 h);
        void transitions(u64 n);
    };

    class Run
    {
      public:

        std::string property, tier = "quick", out, marker_file, replay_family;
        u64 shard = 0, nshards = 1, replay_id = 0;
        bool replay = false, verbose = false;
        u64 seed = 1;

        u64 evaluations = 0, transitions = 0, skipped = 0;
        std::unordered_set<u64> outcomes;
        std::vector<Violation> violations;
        std::map<std::pair<std::string, std::string>, std::pair<Violation, u64>> findings;
        std::map<std::string, u64> per_family;
        std::map<std::string, std::string> rules;
        std::vector<std::string> samples;
        Marker local_marker{};
        double deadline = 0;
        bool truncated  = false;

        Run(int argc, char** argv)
        {
            for (int i = 1; i < argc; ++i)
            {
                std::string a = argv[i];
                auto val      = [&]
                {
                    return std::string(argv[++i]);
                };
                if (a == "--property")
                {
                    property = val();
                }
                else if (a == "--tier")
                {
                    tier = val();
                }
                else if (a == "--shard")
                {
                    shard = std::stoull(val());
                }
                else if (a == "--nshards")
                {
                    nshards = std::stoull(val());
                }
                else if (a == "--out")
                {
                    out = val();
                }
                else if (a == "--marker")
                {
                    marker_file = val();
                }
                else if (a == "--deadline")
                {
                    deadline = std::stod(val());
                }
                else if (a == "--replay")
                {
                    std::string s = val();
                    auto p        = s.rfind(':');
                    replay_family = s.substr(0, p);
                    replay_id     = std::stoull(s.substr(p + 1));
                    replay        = true;
                    verbose       = true;
                }
                else if (a == "--seed")
                {
                    seed = std::stoull(val());
                }
            }
            g_marker = &local_marker;
            if (!marker_file.empty())
            {
                int fd = open(marker_file.c_str(), O_RDWR | O_CREAT, 0644);
                if (fd >= 0 && ftruncate(fd, sizeof(Marker)) == 0)
                {
                    void* p = mmap(nullptr, sizeof(Marker), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
                    if (p != MAP_FAILED)
                    {
                        g_marker = static_cast<Marker*>(p);
                    }
                }
            }
            signal(SIGPROF, on_tick);
            struct itimerval it;
            it.it_interval = {1, 0};
            it.it_value    = {1, 0};
            setitimer(ITIMER_PROF, &it, nullptr);
            struct timeval tv;
            gettimeofday(&tv, nullptr);
            t0 = static_cast<double>(tv.tv_sec) + 1e-6 * static_cast<double>(tv.tv_usec);
        }

        double now() const
        {
            struct timeval tv;
            gettimeofday(&tv, nullptr);
            return static_cast<double>(tv.tv_sec) + 1e-6 * static_cast<double>(tv.tv_usec) - t0;
        }

        bool thorough() const
        {
            return tier == "thorough";
        }

        template <class T>
        T pick(T q, T t) const
        {
            return thorough() ? t : q;
        }

        // Enumerates ids 0..N-1 of a family.
        template <class F>
        void family(const std::string& name, const std::string& rule, u64 N, F&& f)
        {
            if (replay && name != replay_family)
            {
                return;
            }
            rules[name] = rule + " [" + std::to_string(N) + " ids]";
            if (replay)
            {
                one(name, replay_id, f, true);
                return;
            }
            // offset by a hash of the family name so that shards are balanced
            for (u64 id = shard; id < N; id += nshards)
            {
                if (deadline > 0 && (id / nshards) % 64 == 0 && now() > deadline)
                {
                    truncated = true;
                    return;
                }
                if (violations.size() >= 200)
                {
                    truncated = true;
                    return;
                }
                one(name, id, f, false);
            }
        }

        template <class F>
        bool attempt(Case& c, F&& f)
        {
            try
            {
                if constexpr (std::is_same_v<decltype(f(c.id, c)), bool>)
                {
                    return f(c.id, c); // false: id does not denote a legal input
                }
                else
                {
                    f(c.id, c);
                }
            }
            catch (const Stop&)
            {
            }
            catch (const std::exception& e)
            {
                c.fail("exception", std::string("unexpected exception: ") + e.what());
            }
            return true;
        }

        template <class F>
        void one(const std::string& name, u64 id, F&& f, bool verbose_)
        {
            std::strncpy(g_marker->family, name.c_str(), sizeof(g_marker->family) - 1);
            g_marker->id = id;
            g_marker->serial++;
            const u64 done = per_family[name];
            const bool show = verbose_ || done < 1 || done == 40;
            Case c{*this, name, id};
            c.describing = show;
            bool counted = attempt(c, f);
            if (c.failed && !c.describing)
            {
                // again, now with the description
                Violation first = violations.back();
                violations.pop_back();
                Case c2{*this, name, id};
                attempt(c2, f);
                if (!c2.failed)
                {
                    first.msg += " (only in the context of the preceding cases) " + c2.desc_.str();
                    violations.push_back(first);
                }
            }
            if (!counted)
            {
                skipped++;
                return;
            }
            evaluations++;
            u64& pf = per_family[name];
            if (show)
            {
                if (samples.size() < 400 && !c.desc_.str().empty())
                {
                    samples.push_back(name + ":" + std::to_string(id) + " " + c.desc_.str());
                }
            }
            pf++;
            if (verbose_)
            {
                std::cout << name << ":" << id << " " << c.desc_.str() << "\n";
            }
        }

        int finish()
        {
            if (!out.empty())
            {
                FILE* f = std::fopen(out.c_str(), "w");
                std::fprintf(f, "evaluations %llu\n", static_cast<unsigned long long>(evaluations));
                std::fprintf(f, "transitions %llu\n", static_cast<unsigned long long>(transitions));
                std::fprintf(f, "skipped %llu\n", static_cast<unsigned long long>(skipped));
                std::fprintf(f, "truncated %d\n", truncated ? 1 : 0);
                for (auto& [k, v] : per_family)
                {
                    std::fprintf(f, "family %s %llu\n", k.c_str(), static_cast<unsigned long long>(v));
                }
                for (auto& [k, v] : rules)
                {
                    std::fprintf(f, "rule %s %s\n", k.c_str(), clean(v).c_str());
                }
                for (auto& s : samples)
                {
                    std::fprintf(f, "sample %s\n", clean(s).c_str());
                }
                for (auto& v : violations)
                {
                    std::fprintf(f,
                                 "violation %s %llu %s %s\n",
                                 v.family.c_str(),
                                 static_cast<unsigned long long>(v.id),
                                 clean(v.sig, true).c_str(),
                                 clean(v.msg).c_str());
                }
                for (auto& [k, v] : findings)
                {
                    std::fprintf(f,
                                 "finding %s %llu %s %llu %s\n",
                                 k.first.c_str(),
                                 static_cast<unsigned long long>(v.first.id),
                                 clean(k.second, true).c_str(),
                                 static_cast<unsigned long long>(v.second),
                                 clean(v.first.msg).c_str());
                }
                for (u64 h : outcomes)
                {
                    std::fprintf(f, "o %llx\n", static_cast<unsigned long long>(h));
                }
                std::fprintf(f, "done\n");
                std::fclose(f);
            }
            else
            {
                std::cout << "evaluations=" << evaluations << " transitions=" << transitions << " outcomes=" << outcomes.size()
                          << " skipped=" << skipped << " violations=" << violations.size() << " wall=" << now() << "\n";
                for (auto& [k, v] : per_family)
                {
                    std::cout << "  family " << k << " " << v << "\n";
                }
            }
            for (std::size_t i = 0; i < violations.size() && i < 20 && (out.empty() || replay); ++i)
            {
                std::cout << "VIOL " << violations[i].family << ":" << violations[i].id << " [" << violations[i].sig << "] "
                          << violations[i].msg << "\n";
            }
            for (auto& [k, v] : findings)
            {
                if (out.empty() || replay)
                {
                    std::cout << "FINDING " << k.first << " [" << k.second << "] x" << v.second << " first " << v.first.id << " " << v.first.msg
                              << "\n";
                }
            }
            return violations.empty() && !(replay && !findings.empty()) ? 0 : 1;
        }

        static std::string clean(std::string s, bool nospace = false)
        {
            for (auto& c : s)
            {
                if (c == '\n' || c == '\r')
                {
                    c = ';';
                }
                if (nospace && c == ' ')
                {
                    c = '_';
                }
            }
            if (s.size() > 2000)
            {
                s.resize(2000);
            }
            if (s.empty())
            {
                s = "-";
            }
            return s;
        }

      private:

        double t0 = 0;
    };

    inline void Case::fail(const std::string& sig, const std::string& msg)
    {
        if (!failed)
        {
            run.violations.push_back({family, id, sig, desc_.str() + " :: " + msg});
        }
        failed = true;
        if (run.verbose)
        {
            std::cout << "FAIL [" << sig << "] " << desc_.str() << " :: " << msg << "\n";
        }
    }

    inline void Case::finding(const std::string& sig, const std::string& msg)
    {
        auto& f = run.findings[{family, sig}];
        if (f.second++ == 0)
        {
            f.first = {family, id, sig, desc_.str() + " :: " + msg};
        }
    }

    inline void Case::outcome(u64 h)
    {
        if (run.outcomes.size() < 400000)
        {
            run.outcomes.insert(h);
        }
    }

    inline void Case::transitions(u64 n)
    {
        run.transitions += n;
    }

    inline u64 ipow(u64 b, unsigned e)
    {
        u64 r = 1;
        while (e--)
        {
            r *= b;
        }
        return r;
    }

    // floor division / modulo for reference models
    inline long fdiv(long a, long b)
    {
        long q = a / b;
        if ((a % b != 0) && ((a < 0) != (b < 0)))
        {
            --q;
        }
        return q;
    }

    inline long fmod_(long a, long b)
    {
        return a - fdiv(a, b) * b;
    }

    inline bool close(double a, double b, double tol = 1e-11)
    {
        return std::abs(a - b) <= tol * std::max({1.0, std::abs(a), std::abs(b)});
    }
}
