// Workload/monitor framework shared by all harnesses.
#ifndef VERIF_COMMON_HPP
#define VERIF_COMMON_HPP

#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

namespace vf {

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) {}
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    // uniform integer in [a,b]
    long range(long a, long b) { return a + (long)(next() % (uint64_t)(b - a + 1)); }
    double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    double real(double a, double b) { return a + (b - a) * unit(); }
    bool chance(double p) { return unit() < p; }
    template <class T> const T& pick(const std::vector<T>& v) { return v[next() % v.size()]; }
    double pickd(std::initializer_list<double> l) { return *(l.begin() + next() % l.size()); }
    int picki(std::initializer_list<int> l) { return *(l.begin() + next() % l.size()); }
};

struct CaseFailed {};

// One case of a workload: its random source, and what its monitors saw.
struct Ctx {
    Rng rng;
    long idx;                 // case number
    bool thorough;
    bool verbose;
    std::ostringstream in;    // description of the input
    std::map<std::string, long>* events;
    uint64_t hash;            // identity of this case, for counting distinct ones
    bool nontrivial;
    std::string fail_key, fail_msg;

    Ctx(uint64_t seed, long i, bool th, bool v, std::map<std::string, long>* e)
        : rng(seed), idx(i), thorough(th), verbose(v), events(e), hash(1469598103934665603ull), nontrivial(false) {
        in.precision(17);
    }
    void ev(const char* name, long n = 1) { (*events)[name] += n; }
    void mix(uint64_t v) { hash = (hash ^ v) * 1099511628211ull; hash ^= hash >> 29; }
    void mixd(double d) { uint64_t v; std::memcpy(&v, &d, 8); mix(v); }
    void interesting() { nontrivial = true; }
    [[noreturn]] void fail(const std::string& key, const std::string& msg) {
        fail_key = key; fail_msg = msg;
        throw CaseFailed();
    }
    void check(bool ok, const std::string& key, const std::string& msg) { if (!ok) fail(key, msg); }
};

typedef std::function<void(Ctx&)> CaseFn;

struct Workload {
    std::string prop, name, rule;
    long quick, thorough;     // number of cases
    CaseFn fn;
    int weight;               // relative cost for memcheck scaling: cases run there
};

inline std::vector<Workload>& registry() { static std::vector<Workload> r; return r; }
struct Reg {
    Reg(const char* prop, const char* name, long q, long t, long memcheck, const char* rule, CaseFn fn) {
        Workload w; w.prop = prop; w.name = name; w.quick = q; w.thorough = t; w.fn = fn; w.rule = rule;
        w.weight = (int)memcheck;
        registry().push_back(w);
    }
};
// WORKLOAD(property, name, quick cases, thorough cases, cases under memcheck, rule) { body using ctx }
#define VF_CAT2(a, b) a##b
#define VF_CAT(a, b) VF_CAT2(a, b)
#define WORKLOAD(prop, name, q, t, m, rule)                                             \
    static void VF_CAT(vf_case_, name)(vf::Ctx & ctx);                                  \
    static vf::Reg VF_CAT(vf_reg_, name)(prop, #name, q, t, m, rule, VF_CAT(vf_case_, name)); \
    static void VF_CAT(vf_case_, name)(vf::Ctx & ctx)

template <class A> std::string str(const A& a) { std::ostringstream o; o.precision(17); o << a; return o.str(); }
template <class A, class... B> std::string str(const A& a, const B&... b) { return str(a) + str(b...); }

inline double wrap(double a) { // (-pi, pi]
    a = std::fmod(a, 2 * M_PI);
    if (a > M_PI) a -= 2 * M_PI;
    if (a <= -M_PI) a += 2 * M_PI;
    return a;
}
inline double angdist(double a, double b) { return std::fabs(wrap(a - b)); }

} // namespace vf
#endif
