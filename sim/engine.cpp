// Command line of the simulator: generate plans, execute them, search over seeds.
#include <iostream>
#include <locale>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <signal.h>
#include <unistd.h>

#include <algorithm>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <sstream>

#include "common.h"

namespace wl {
void install_capture();
}  // namespace wl
using namespace wl;

static sim::Result *res;
static const Plan *cur_plan;
static const PropDef *cur_def;
static int run_limit_s = 60;

static Plan generate(const std::string &prop, uint64_t seed, uint64_t idx) {
    const PropDef *d = find_prop(prop);
    if (!d) {
        fprintf(stderr, "unknown property %s\n", prop.c_str());
        _exit(2);
    }
    Plan p;
    p.prop = prop;
    p.variant = VARIANT;
    p.seed = seed;
    p.idx = idx;
    Rng r(sim::mix64(seed * 0x9e3779b97f4a7c15ull + idx) ^ 0xabcdef);
    p.cfg["xs"] = (int64_t)(r.next() >> 33);
    d->gen(p, r);
    return p;
}

static void plan_main(void *) {
    cur_def->exec(*cur_plan);
    sim::finish_ok();
}
static double now() {
    // the clock calls are interposed; times are taken from the kernel through a raw call
    struct timespec ts;
    long r;
    asm volatile("syscall" : "=a"(r) : "a"(228L), "D"(1L), "S"(&ts) : "rcx", "r11", "memory");
    return (double)ts.tv_sec + 1e-9 * (double)ts.tv_nsec;
}
// executes one plan in a pristine child process
static void execute(const Plan &p) {
    memset((void *)res, 0, offsetof(sim::Result, log));
    cur_plan = &p;
    cur_def = find_prop(p.prop);
    if (!cur_def) {
        fprintf(stderr, "unknown property %s\n", p.prop.c_str());
        _exit(2);
    }
    fflush(stdout);
    pid_t pid = fork();
    if (pid < 0) {
        perror("fork");
        _exit(2);
    }
    if (pid == 0) {
        int fd = open("/dev/null", O_RDWR);
        if (fd >= 0) {
            dup2(fd, 1);
            dup2(fd, 2);
        }
        struct rlimit rl = {0, 0};
        setrlimit(RLIMIT_CORE, &rl);
        sim::Config c = p.config();
        sim::rt_begin(c, res);
        sim::disk_reset();
        if (p.explicit_sched) {
            sim::g.sw = p.sw.data();
            sim::g.nsw = (uint32_t)p.sw.size();
        }
        struct itimerval it;
        memset(&it, 0, sizeof it);
        it.it_value.tv_sec = run_limit_s;
        signal(SIGVTALRM, SIG_DFL);
        alarm((unsigned)run_limit_s);
        sim::rt_main(plan_main, nullptr);
        _exit(9);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0) {}
    if (res->outcome == sim::O_NONE) {
        res->outcome = sim::O_TOOL_ERROR;
        snprintf(res->cls, sizeof res->cls, "tool-error");
        snprintf(res->msg, sizeof res->msg, "run ended without a verdict (wait status %d)", st);
    }
}

static std::string esc(const char *s) {
    std::string o;
    for (; *s; s++) {
        unsigned char c = (unsigned char)*s;
        if (c == '"' || c == '\\') o += '\\', o += (char)c;
        else if (c < 32 || c > 126) o += fmt("\\u%04x", c);
        else o += (char)c;
    }
    return o;
}
static void print_result(FILE *f, bool log) {
    fprintf(f, "{\"outcome\":%d,\"cls\":\"%s\",\"msg\":\"%s\",\"hash\":\"%016llx\",\"steps\":%llu,\"mtsteps\":%llu,\"switches\":%llu,", res->outcome,
            esc(res->cls).c_str(), esc(res->msg).c_str(), (unsigned long long)res->hash, (unsigned long long)res->steps,
            (unsigned long long)res->mtsteps, (unsigned long long)res->switches);
    fprintf(f, "\"regions\":%llu,\"allocs\":%llu,\"ioops\":%llu,\"clockreads\":%llu,\"randoms\":%llu,\"simns\":%llu,\"lib_calls\":%llu,\"oracle_checks\":%llu,",
            (unsigned long long)res->regions, (unsigned long long)res->allocs, (unsigned long long)res->ioops,
            (unsigned long long)res->clockreads, (unsigned long long)res->randoms, (unsigned long long)res->simns,
            (unsigned long long)res->lib_calls, (unsigned long long)res->oracle_checks);
    fprintf(f, "\"pc1\":\"%llx\",\"pc2\":\"%llx\",\"schedhash\":\"%016llx\",\"shapehash\":\"%016llx\",\"sample\":\"%s\",\"fired\":{",
            (unsigned long long)res->pc1, (unsigned long long)res->pc2, (unsigned long long)res->schedhash,
            (unsigned long long)res->shapehash, esc(res->sample).c_str());
    bool first = true;
    for (int i = 0; i < sim::F_NKINDS; i++)
        if (res->fired[i]) {
            fprintf(f, "%s\"%s\":%llu", first ? "" : ",", sim::fault_names[i], (unsigned long long)res->fired[i]);
            first = false;
        }
    fprintf(f, "},\"probes\":{");
    first = true;
    for (int i = 0; i < sim::MAXPROBE; i++)
        if (res->probes[i].name[0]) {
            fprintf(f, "%s\"%s\":%llu", first ? "" : ",", res->probes[i].name, (unsigned long long)res->probes[i].n);
            first = false;
        }
    fprintf(f, "}");
    if (log) {
        fprintf(f, ",\"logfull\":%u,\"log\":[", res->logfull);
        for (uint32_t i = 0; i < res->nlog; i++)
            fprintf(f, "%s[%llu,%d]", i ? "," : "", (unsigned long long)res->log[i].step, res->log[i].target);
        fprintf(f, "]");
    }
    fprintf(f, "}\n");
}

static std::string slurp(const char *path) {
    std::ifstream f(path, std::ios::binary);
    std::stringstream s;
    s << f.rdbuf();
    return s.str();
}

int main(int argc, char **argv) {
    int pers = personality(0xffffffff);
    if (pers >= 0 && !(pers & ADDR_NO_RANDOMIZE)) {
        if (personality((unsigned long)pers | ADDR_NO_RANDOMIZE) >= 0 && !getenv("SIM_REEXEC")) {
            setenv("SIM_REEXEC", "1", 1);
            execv("/proc/self/exe", argv);
        }
    }
    struct rlimit sl = {64u << 20, 64u << 20};
    setrlimit(RLIMIT_STACK, &sl);
    static char obuf[65536];
    setvbuf(stdout, obuf, _IOFBF, sizeof obuf);
    sim::rt_init();
    // the C++ library fills its character tables on first use; every run must find them filled
    {
        auto &ct = std::use_facet<std::ctype<char>>(std::locale());
        ct.widen('a');
        ct.narrow('a', 0);
        std::istringstream warm("1 2.5 word\nline");
        std::string w;
        int i;
        double d;
        warm >> i >> d >> w;
        std::getline(warm, w);
        std::ostringstream o;
        o << i << d << w << std::endl;
    }
    res = (sim::Result *)mmap((void *)0x500000000000ull, sizeof(sim::Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_FIXED, -1, 0);
    if (res == MAP_FAILED) return 2;
    install_capture();
    std::string mode = argc > 1 ? argv[1] : "";
    if (mode == "gen" && argc == 5) {
        Plan p = generate(argv[2], strtoull(argv[3], nullptr, 10), strtoull(argv[4], nullptr, 10));
        fputs(p.text().c_str(), stdout);
        return 0;
    }
    if (mode == "run" && argc >= 3) {
        Plan p;
        std::string err;
        if (!Plan::parse(slurp(argv[2]), p, err)) {
            fprintf(stderr, "bad plan: %s\n", err.c_str());
            return 2;
        }
        execute(p);
        print_result(stdout, true);
        return 0;
    }
    if (mode == "server") {
        // executes plan files named on standard input, one result line each
        char line[4096];
        while (fgets(line, sizeof line, stdin)) {
            line[strcspn(line, "\n")] = 0;
            Plan p;
            std::string err;
            if (!Plan::parse(slurp(line), p, err)) {
                fprintf(stderr, "bad plan: %s\n", err.c_str());
                return 2;
            }
            execute(p);
            print_result(stdout, false);
            fflush(stdout);
        }
        return 0;
    }
    if (mode == "search" && argc == 9) {
        std::string prop = argv[2];
        uint64_t seed = strtoull(argv[3], nullptr, 10), start = strtoull(argv[4], nullptr, 10),
                 stride = strtoull(argv[5], nullptr, 10), count = strtoull(argv[6], nullptr, 10);
        double deadline = atof(argv[7]);
        double t0 = now();
        FILE *f = fopen(argv[8], "w");
        if (!f) return 2;
        uint64_t done = 0;
        for (uint64_t k = 0; k < count; k++) {
            if (now() - t0 > deadline) break;
            Plan p = generate(prop, seed, start + k * stride);
            execute(p);
            done++;
            fprintf(f, "%llu %.4f ", (unsigned long long)p.idx, now() - t0);
            print_result(f, false);
            fflush(f);
        }
        fclose(f);
        return 0;
    }
    fprintf(stderr, "usage: engine gen PROP SEED IDX | run PLAN | server | search PROP SEED START STRIDE COUNT SECONDS OUT\n");
    return 2;
}
