// Runner: --list | --run PROP WORKLOAD --seed S --from A --to B [--step N] --out F --progress F [--thorough] [--verbose]
#include "common.hpp"
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>
#include <exception>
#include <typeinfo>
#include <cxxabi.h>

using namespace vf;

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
extern "C" int __lsan_do_recoverable_leak_check(void);
#define VF_HAVE_LSAN 1
#endif
#endif

static std::string jesc(const std::string& s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o + "\"";
}
static uint64_t hstr(const std::string& s) {
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
    return h;
}

int main(int argc, char** argv) {
    std::string prop, wl, out, prog;
    uint64_t seed = 1; long from = 0, to = 1, step = 1; bool thorough = false, verbose = false, list = false;
    long maxfail = 3;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--list") list = true;
        else if (a == "--run") { prop = argv[++i]; wl = argv[++i]; }
        else if (a == "--seed") seed = strtoull(argv[++i], 0, 10);
        else if (a == "--from") from = atol(argv[++i]);
        else if (a == "--to") to = atol(argv[++i]);
        else if (a == "--step") step = atol(argv[++i]);
        else if (a == "--out") out = argv[++i];
        else if (a == "--progress") prog = argv[++i];
        else if (a == "--maxfail") maxfail = atol(argv[++i]);
        else if (a == "--thorough") thorough = true;
        else if (a == "--verbose") verbose = true;
    }
    if (list) {
        for (auto& w : registry())
            printf("{\"prop\":%s,\"name\":%s,\"quick\":%ld,\"thorough\":%ld,\"mem\":%d,\"rule\":%s}\n", jesc(w.prop).c_str(),
                   jesc(w.name).c_str(), w.quick, w.thorough, w.weight, jesc(w.rule).c_str());
        return 0;
    }
    Workload* w = 0;
    for (auto& x : registry()) if (x.prop == prop && x.name == wl) w = &x;
    if (!w) { fprintf(stderr, "no such workload\n"); return 64; }
    FILE* fo = out.empty() ? stderr : fopen(out.c_str(), "w");
    if (!fo) return 65;
    volatile long* progress = 0;
    static long dummy;
    if (!prog.empty()) {
        int fd = open(prog.c_str(), O_RDWR | O_CREAT, 0644);
        if (fd < 0 || ftruncate(fd, 64) != 0) return 66;
        progress = (volatile long*)mmap(0, 64, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        close(fd);
    } else progress = &dummy;
    // the library prints diagnostics on stdout
    if (!verbose) { if (!freopen("/dev/null", "w", stdout)) return 67; }

    std::map<std::string, long> events;
    std::unordered_set<uint64_t> distinct;
    std::vector<std::string> samples;
    long evals = 0, fails = 0;
    for (long i = from; i < to; i += step) {
        *progress = i;
        uint64_t cs = Rng(seed * 0x9E3779B97F4A7C15ull + hstr(prop + "/" + wl) + (uint64_t)i * 0xD1B54A32D192ED03ull).next();
        Ctx ctx(cs, i, thorough, verbose, &events);
        bool failed = false;
        try {
            w->fn(ctx);
        } catch (CaseFailed&) {
            failed = true;
        } catch (std::exception& e) {
            failed = true;
            int st; char* n = abi::__cxa_demangle(typeid(e).name(), 0, 0, &st);
            ctx.fail_key = std::string("exception:") + (n ? n : "?");
            free(n);
            ctx.fail_msg = std::string("unexpected exception: ") + e.what();
        } catch (...) {
            failed = true;
            std::type_info* t = abi::__cxa_current_exception_type();
            int st; char* n = t ? abi::__cxa_demangle(t->name(), 0, 0, &st) : 0;
            ctx.fail_key = std::string("exception:") + (n ? n : "?");
            free(n);
            ctx.fail_msg = "unexpected exception";
        }
        ++evals;
        if (ctx.nontrivial) distinct.insert(ctx.hash);
        if (verbose) fprintf(stderr, "case %ld: %s\n", i, ctx.in.str().c_str());
        if (samples.size() < 2 && ctx.nontrivial) samples.push_back(str("case ", i, ": ", ctx.in.str().substr(0, 600)));
        if (failed) {
            fprintf(fo, "{\"fail\":1,\"case\":%ld,\"key\":%s,\"msg\":%s,\"in\":%s}\n", i, jesc(ctx.fail_key).c_str(),
                    jesc(ctx.fail_msg).c_str(), jesc(ctx.in.str().substr(0, 20000)).c_str());
            fflush(fo);
            if (++fails >= maxfail) break;
        }
    }
    *progress = -1;
#ifdef VF_HAVE_LSAN
    if (getenv("VF_LEAKS") && __lsan_do_recoverable_leak_check())
        fprintf(fo, "{\"leak\":1}\n");
#endif
    fprintf(fo, "{\"done\":1,\"evaluations\":%ld,\"events\":{", evals);
    bool first = true;
    for (auto& e : events) { fprintf(fo, "%s%s:%ld", first ? "" : ",", jesc(e.first).c_str(), e.second); first = false; }
    fprintf(fo, "},\"samples\":[");
    for (size_t k = 0; k < samples.size(); ++k) fprintf(fo, "%s%s", k ? "," : "", jesc(samples[k]).c_str());
    fprintf(fo, "],\"hashes\":[");
    first = true;
    for (uint64_t h : distinct) { fprintf(fo, "%s%llu", first ? "" : ",", (unsigned long long)h); first = false; }
    fprintf(fo, "]}\n");
    fclose(fo);
    return 0;
}
