#include "common.h"

#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <array>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <iostream>
#include <sstream>
#include <streambuf>

#include "filters/filters.h"
#include "ops/ops.h"
#include "remesh/remesh.h"
#include "restore/restore.h"

using namespace tinymesh;

namespace wl {

std::string fmt(const char *f, ...) {
    char buf[1024];
    va_list ap;
    va_start(ap, f);
    vsnprintf(buf, sizeof buf, f, ap);
    va_end(ap);
    return buf;
}

// ================================================================ plans
static void put_args(std::string &o, const std::vector<double> &a) {
    for (double d : a) {
        char b[40];
        snprintf(b, sizeof b, " %.17g", d);
        o += b;
    }
    o += "\n";
}
std::string Plan::text() const {
    std::string o;
    o += "prop " + prop + "\n";
    o += "variant " + variant + "\n";
    o += fmt("seed %llu\nidx %llu\n", (unsigned long long)seed, (unsigned long long)idx);
    for (auto &k : cfg) o += fmt("c %s %lld\n", k.first.c_str(), (long long)k.second);
    for (auto &m : meshes) {
        o += "mesh";
        put_args(o, m.a);
    }
    for (auto &m : ops) {
        o += "op " + m.name;
        put_args(o, m.a);
    }
    for (auto &m : faults) {
        o += "fault " + m.name;
        put_args(o, m.a);
    }
    if (explicit_sched) o += "explicit 1\n";
    for (auto &s : sw) o += fmt("sw %llu %d\n", (unsigned long long)s.step, s.target);
    return o;
}
bool Plan::parse(const std::string &text, Plan &p, std::string &err) {
    std::istringstream is(text);
    std::string line;
    while (std::getline(is, line)) {
        if (line.empty() || line[0] == '#') continue;
        std::istringstream ls(line);
        std::string k;
        ls >> k;
        if (k == "prop") ls >> p.prop;
        else if (k == "variant") ls >> p.variant;
        else if (k == "seed") ls >> p.seed;
        else if (k == "idx") ls >> p.idx;
        else if (k == "explicit") p.explicit_sched = true;
        else if (k == "c") {
            std::string n;
            long long v;
            ls >> n >> v;
            p.cfg[n] = v;
        } else if (k == "mesh" || k == "op" || k == "fault") {
            Op o;
            if (k != "mesh") ls >> o.name;
            std::string tok;
            while (ls >> tok) o.a.push_back(strtod(tok.c_str(), nullptr));
            (k == "mesh" ? p.meshes : k == "op" ? p.ops : p.faults).push_back(o);
        } else if (k == "sw") {
            sim::SwitchRec s = {};
            unsigned long long st;
            ls >> st >> s.target;
            s.step = st;
            p.sw.push_back(s);
        } else if (k == "expect") {
            continue;
        } else {
            err = "unknown line: " + line;
            return false;
        }
    }
    return !p.prop.empty();
}
sim::Config Plan::config() const {
    sim::Config f;
    f.threads = (int)c("threads", 1);
    f.vary = (int)c("vary", 0);
    f.policy = explicit_sched ? (int)sim::P_EXPLICIT : (int)c("sched", 0);
    f.param = (int)c("sparam", 64);
    f.depth = (int)c("sdepth", 2);
    uint64_t xs = (uint64_t)c("xs", 1);
    f.seed = xs * 2654435761u + 1;
    f.reuse = (int)c("reuse", 0);
    f.order = (int)c("order", 0);
    f.gap = (int)c("gap", 1);
    f.fill = (int)c("fill", 2);
    f.hseed = xs + 17;
    f.clock = (int)c("clock", 0);
    f.cseed = xs + 31;
    f.rseed = (uint64_t)c("rseed", (int64_t)xs + 5);
    f.rfail = (int)c("rfail", 0);
    f.stepcap = (uint64_t)c("cap", 400000000);
    f.slow = (int)c("slow", 0);
    // the advancing front needs far more steps than anything else
    for (auto &o : ops)
        if (o.name.size() >= 7 && o.name.compare(o.name.size() - 7, 7, "filladv") == 0) f.stepcap = std::max<uint64_t>(f.stepcap, 3000000000ull);
    return f;
}

void gen_sched(Plan &p, Rng &r, int maxthreads) {
    int t = maxthreads <= 1 ? 1 : r.range(2, maxthreads);
    p.cfg["threads"] = t;
    if (r.chance(0.15)) p.cfg["vary"] = 1;
    switch (r.below(10)) {
    case 0: p.cfg["sched"] = sim::P_REV; break;
    case 1: p.cfg["sched"] = sim::P_RR; p.cfg["sparam"] = 1 + (int64_t)r.below(200); break;
    case 2:
    case 3: p.cfg["sched"] = sim::P_PCT; p.cfg["sparam"] = r.range(6, 18); p.cfg["sdepth"] = r.range(1, 6); break;
    case 4:
    case 5: p.cfg["sched"] = sim::P_STALL; p.cfg["sparam"] = 1 << r.range(2, 9); break;
    default: p.cfg["sched"] = sim::P_RAND; p.cfg["sparam"] = 1 << r.range(1, 10); break;
    }
}
void gen_heap(Plan &p, Rng &r) {
    p.cfg["reuse"] = r.range(0, 3);
    p.cfg["order"] = r.range(0, 2);
    p.cfg["gap"] = r.range(0, 8);
    p.cfg["fill"] = r.range(0, 4);
}
void gen_clock(Plan &p, Rng &r) { p.cfg["clock"] = r.range(0, 7); }

Op gen_mesh(Rng &r, int flags) {
    static const int closed[] = {0, 1, 2, 5, 7, 8, 11};
    static const int open[] = {3, 4, 6, 10};
    bool wantopen = (flags & MF_ANY) == MF_OPEN || ((flags & MF_ANY) == MF_ANY && r.chance(0.5));
    int kind;
    int holes = 0;
    if (wantopen && r.chance(0.45)) kind = open[r.below(4)];
    else {
        kind = closed[r.below(7)];
        if (wantopen) holes = r.range(1, 3);
    }
    int hi = flags & MF_BIG ? 12 : flags & MF_SMALL ? 5 : 8;
    int a = r.range(3, hi), b = r.range(3, hi);
    if (flags & MF_HUGE) a = r.range(12, 24), b = r.range(10, 26);
    if ((kind == 5 || kind == 6 || kind == 10) && r.chance(0.3)) a = r.range(8, 30);
    if (kind == 1 || kind == 2) a = flags & MF_BIG ? r.range(1, 2) : flags & MF_SMALL ? r.range(0, 1) : r.range(0, 2);
    if ((flags & MF_HUGE) && (kind == 1 || kind == 2)) a = 3;
    if (kind == 8) a = flags & MF_HUGE ? r.range(5, 9) : r.range(1, flags & MF_BIG ? 5 : flags & MF_SMALL ? 2 : 3);
    int splits = flags & MF_REGULAR ? 0 : (r.chance(0.5) ? r.range(0, flags & MF_SMALL ? 4 : 16) : 0);
    if ((kind == 3 || kind == 4) && wantopen && r.chance(0.3)) holes = r.range(1, 2);
    return Op{"", {(double)kind, (double)a, (double)b, (double)splits, (double)holes, (double)r.range(1, 4),
                   (double)(r.chance(0.7) ? r.range(0, 200) : 0), (double)r.below(1000000)}};
}

Op gen_context_mesh(Rng &r) {
    double seed = (double)r.below(1000000), jit = (double)r.range(10, 200), holes = r.range(1, 2), size = r.range(1, 3);
    switch (r.range(0, 2)) {
    case 0: return Op{"", {0, 21, 15, (double)r.range(0, 4), holes, size, jit, seed}};
    case 1: return Op{"", {8, 8, 8, 0, holes, size, jit, seed}};
    default: return Op{"", {4, 8, 38, 0, 0, size, jit, seed}};
    }
}

// ================================================================ triangle lists
static void grid_tri(TriMesh &m, uint32_t a, uint32_t b, uint32_t c, uint32_t d, bool flip) {
    // quad a b / c d with a-b bottom
    if (!flip) {
        uint32_t t[] = {a, b, d, a, d, c};
        m.tri.insert(m.tri.end(), t, t + 6);
    } else {
        uint32_t t[] = {a, b, c, b, d, c};
        m.tri.insert(m.tri.end(), t, t + 6);
    }
}
static void add_torus(TriMesh &m, int a, int b, Vec3 o) {
    uint32_t base = (uint32_t)m.pos.size();
    for (int i = 0; i < a; i++)
        for (int j = 0; j < b; j++) {
            double u = 2 * M_PI * i / a, v = 2 * M_PI * j / b;
            m.pos.push_back(Vec3(o[0] + (2.0 + 0.8 * cos(v)) * cos(u), o[1] + (2.0 + 0.8 * cos(v)) * sin(u), o[2] + 0.8 * sin(v)));
        }
    auto id = [&](int i, int j) { return base + (uint32_t)(((i + a) % a) * b + (j + b) % b); };
    for (int i = 0; i < a; i++)
        for (int j = 0; j < b; j++) grid_tri(m, id(i, j), id(i + 1, j), id(i, j + 1), id(i + 1, j + 1), false);
}
static void subdivide_sphere(std::vector<Vec3> &pos, std::vector<uint32_t> &tri) {
    std::map<std::pair<uint32_t, uint32_t>, uint32_t> mid;
    std::vector<uint32_t> out;
    auto mp = [&](uint32_t a, uint32_t b) {
        auto k = std::make_pair(std::min(a, b), std::max(a, b));
        auto it = mid.find(k);
        if (it != mid.end()) return it->second;
        Vec3 p = 0.5 * (pos[a] + pos[b]);
        double l = length(p);
        pos.push_back(Vec3(p[0] / l, p[1] / l, p[2] / l));
        return mid[k] = (uint32_t)pos.size() - 1;
    };
    for (size_t i = 0; i < tri.size(); i += 3) {
        uint32_t a = tri[i], b = tri[i + 1], c = tri[i + 2];
        uint32_t ab = mp(a, b), bc = mp(b, c), ca = mp(c, a);
        uint32_t t[] = {a, ab, ca, b, bc, ab, c, ca, bc, ab, bc, ca};
        out.insert(out.end(), t, t + 12);
    }
    tri.swap(out);
}
static void add_sphere(TriMesh &m, bool ico, int level, Vec3 o) {
    std::vector<Vec3> pos;
    std::vector<uint32_t> tri;
    if (ico) {
        const double t = (1.0 + sqrt(5.0)) / 2.0;
        double p[12][3] = {{-1, t, 0}, {1, t, 0}, {-1, -t, 0}, {1, -t, 0}, {0, -1, t}, {0, 1, t},
                           {0, -1, -t}, {0, 1, -t}, {t, 0, -1}, {t, 0, 1}, {-t, 0, -1}, {-t, 0, 1}};
        for (auto &q : p) {
            double l = sqrt(q[0] * q[0] + q[1] * q[1] + q[2] * q[2]);
            pos.push_back(Vec3(q[0] / l, q[1] / l, q[2] / l));
        }
        uint32_t f[] = {0, 11, 5, 0, 5, 1, 0, 1, 7, 0, 7, 10, 0, 10, 11, 1, 5, 9, 5, 11, 4, 11, 10, 2, 10, 7, 6, 7, 1, 8,
                        3, 9, 4, 3, 4, 2, 3, 2, 6, 3, 6, 8, 3, 8, 9, 4, 9, 5, 2, 4, 11, 6, 2, 10, 8, 6, 7, 9, 8, 1};
        tri.assign(f, f + 60);
    } else {
        double p[6][3] = {{1, 0, 0}, {-1, 0, 0}, {0, 1, 0}, {0, -1, 0}, {0, 0, 1}, {0, 0, -1}};
        for (auto &q : p) pos.push_back(Vec3(q[0], q[1], q[2]));
        uint32_t f[] = {0, 2, 4, 2, 1, 4, 1, 3, 4, 3, 0, 4, 2, 0, 5, 1, 2, 5, 3, 1, 5, 0, 3, 5};
        tri.assign(f, f + 24);
    }
    for (int i = 0; i < level; i++) subdivide_sphere(pos, tri);
    uint32_t base = (uint32_t)m.pos.size();
    for (auto &p : pos) m.pos.push_back(p + o);
    for (auto t : tri) m.tri.push_back(base + t);
}
static void add_box(TriMesh &m, int n) {
    std::map<std::array<int, 3>, uint32_t> id;
    auto vid = [&](int x, int y, int z) {
        std::array<int, 3> k = {x, y, z};
        auto it = id.find(k);
        if (it != id.end()) return it->second;
        m.pos.push_back(Vec3((double)x / n, (double)y / n, (double)z / n));
        return id[k] = (uint32_t)m.pos.size() - 1;
    };
    for (int ax = 0; ax < 3; ax++)
        for (int side = 0; side < 2; side++)
            for (int i = 0; i < n; i++)
                for (int j = 0; j < n; j++) {
                    auto at = [&](int u, int v) {
                        int q[3];
                        q[ax] = side * n;
                        q[(ax + 1) % 3] = u;
                        q[(ax + 2) % 3] = v;
                        return vid(q[0], q[1], q[2]);
                    };
                    uint32_t a = at(i, j), b = at(i + 1, j), c = at(i, j + 1), d = at(i + 1, j + 1);
                    if (side) grid_tri(m, a, b, c, d, (i + j) & 1);
                    else grid_tri(m, a, c, b, d, (i + j) & 1);
                }
}
static void compact(TriMesh &m) {
    std::vector<int> map(m.pos.size(), -1);
    std::vector<Vec3> pos;
    for (auto &t : m.tri) {
        if (map[t] < 0) {
            map[t] = (int)pos.size();
            pos.push_back(m.pos[t]);
        }
        t = (uint32_t)map[t];
    }
    m.pos.swap(pos);
}
bool tri_manifold(const TriMesh &m) {
    std::map<std::pair<uint32_t, uint32_t>, int> de;
    std::vector<std::map<uint32_t, uint32_t>> link(m.pos.size());
    if (m.tri.empty()) return false;
    for (size_t i = 0; i < m.tri.size(); i += 3)
        for (int k = 0; k < 3; k++) {
            uint32_t a = m.tri[i + k], b = m.tri[i + (k + 1) % 3], c = m.tri[i + (k + 2) % 3];
            if (a == b) return false;
            if (de[{a, b}]++) return false;
            link[a][b] = c;
        }
    for (size_t i = 0; i < m.tri.size(); i += 3) {
        int nb = 0;
        for (int k = 0; k < 3; k++)
            if (!de.count({m.tri[i + (k + 1) % 3], m.tri[i + k]})) nb++;
        if (nb == 3) return false;
    }
    for (auto &l : link) {
        if (l.empty()) return false;
        std::set<uint32_t> targets;
        for (auto &e : l) targets.insert(e.second);
        std::vector<uint32_t> starts;
        for (auto &e : l)
            if (!targets.count(e.first)) starts.push_back(e.first);
        if (starts.size() > 1) return false;
        uint32_t s = starts.empty() ? l.begin()->first : starts[0];
        size_t n = 0;
        uint32_t x = s;
        while (l.count(x) && n < l.size()) {
            x = l[x];
            n++;
            if (x == s) break;
        }
        if (n != l.size()) return false;
        if (starts.empty() && l.size() < 3) return false;
    }
    return true;
}

TriMesh make_trimesh(const Op &s) {
    int kind = s.iarg(0), a = s.iarg(1, 4), b = s.iarg(2, 4), splits = s.iarg(3), nholes = s.iarg(4), hsize = s.iarg(5, 1);
    double jit = s.arg(6) / 1000.0;
    Rng r((uint64_t)s.arg(7) + 77);
    TriMesh m;
    a = std::max(3, std::min(a, 40));
    b = std::max(3, std::min(b, 40));
    int level = std::max(0, std::min(s.iarg(1, 1), 3));
    switch (kind) {
    case 1: add_sphere(m, true, level, Vec3(0.0)); break;
    case 2: add_sphere(m, false, level, Vec3(0.0)); break;
    case 3:
        for (int i = 0; i <= a; i++)
            for (int j = 0; j <= b; j++) m.pos.push_back(Vec3(i, j, 0.3 * sin(i * 0.9) * cos(j * 0.7)));
        for (int i = 0; i < a; i++)
            for (int j = 0; j < b; j++) {
                auto id = [&](int x, int y) { return (uint32_t)(x * (b + 1) + y); };
                grid_tri(m, id(i, j), id(i + 1, j), id(i, j + 1), id(i + 1, j + 1), (i + j) & 1);
            }
        break;
    case 4:
        for (int j = 0; j <= b; j++)
            for (int i = 0; i < a; i++) m.pos.push_back(Vec3(cos(2 * M_PI * i / a), sin(2 * M_PI * i / a), j * 0.7));
        for (int j = 0; j < b; j++)
            for (int i = 0; i < a; i++) {
                auto id = [&](int x, int y) { return (uint32_t)(y * a + (x % a)); };
                grid_tri(m, id(i, j), id(i + 1, j), id(i, j + 1), id(i + 1, j + 1), false);
            }
        break;
    case 5:
        m.pos.push_back(Vec3(0, 0, 1));
        m.pos.push_back(Vec3(0, 0, -1.2));
        for (int i = 0; i < a + 1; i++) m.pos.push_back(Vec3(cos(2 * M_PI * i / (a + 1)), sin(2 * M_PI * i / (a + 1)), 0));
        for (int i = 0; i < a + 1; i++) {
            uint32_t x = 2 + (uint32_t)i, y = 2 + (uint32_t)((i + 1) % (a + 1));
            uint32_t t[] = {0, x, y, 1, y, x};
            m.tri.insert(m.tri.end(), t, t + 6);
        }
        break;
    case 6: {
        // disk: centre, one or two rings
        int n = a + 2;
        m.pos.push_back(Vec3(0, 0, 0.2));
        for (int k = 1; k <= 2; k++)
            for (int i = 0; i < n; i++) m.pos.push_back(Vec3(k * cos(2 * M_PI * i / n), k * sin(2 * M_PI * i / n), -0.1 * k));
        for (int i = 0; i < n; i++) {
            uint32_t x = 1 + (uint32_t)i, y = 1 + (uint32_t)((i + 1) % n);
            uint32_t t[] = {0, x, y};
            m.tri.insert(m.tri.end(), t, t + 3);
            if (b > 3) grid_tri(m, x, x + (uint32_t)n, y, y + (uint32_t)n, false);
        }
        break;
    }
    case 7:
        add_torus(m, a, b, Vec3(0.0));
        add_sphere(m, false, 1, Vec3(9, 1, 0));
        break;
    case 8: add_box(m, std::max(1, std::min(s.iarg(1, 1), 12))); break;
    case 9:
        // torus of seven vertices that are all joined, without the faces around one of them
        for (int i = 0; i < 7; i++) m.pos.push_back(Vec3(cos(2.0 * i), sin(2.0 * i) + 0.1 * i, cos(3.0 * i)));
        for (uint32_t i = 0; i < 7; i++)
            for (auto t : {std::array<uint32_t, 3>{i, (i + 1) % 7, (i + 3) % 7}, std::array<uint32_t, 3>{i, (i + 3) % 7, (i + 2) % 7}})
                if (t[0] && t[1] && t[2]) m.tri.insert(m.tri.end(), t.begin(), t.end());
        break;
    case 10:
        // half disk: a vertex of the boundary that joins all others
        m.pos.push_back(Vec3(0, 0, 0.1));
        for (int k = 1; k <= 2; k++)
            for (int i = 0; i < a; i++) m.pos.push_back(Vec3(k * cos(M_PI * i / a), k * sin(M_PI * i / a), -0.1 * k));
        for (int i = 0; i + 1 < a; i++) {
            uint32_t x = 1 + (uint32_t)i, y = x + 1;
            uint32_t t[] = {0, x, y};
            m.tri.insert(m.tri.end(), t, t + 3);
            if (b > 3) grid_tri(m, x, x + (uint32_t)a, y, y + (uint32_t)a, i & 1);
        }
        break;
    case 11: {
        // two tori joined by a tube
        add_torus(m, a, b, Vec3(0.0));
        size_t n = m.tri.size();
        add_torus(m, 3 + a % 3, 4, Vec3(7, 0, 0));
        std::array<uint32_t, 3> p = {m.tri[0], m.tri[1], m.tri[2]}, q = {m.tri[n], m.tri[n + 2], m.tri[n + 1]};
        m.tri.erase(m.tri.begin() + (long)n, m.tri.begin() + (long)n + 3);
        m.tri.erase(m.tri.begin(), m.tri.begin() + 3);
        for (int i = 0; i < 3; i++) grid_tri(m, p[i], p[(i + 1) % 3], q[i], q[(i + 1) % 3], false);
        break;
    }
    case 12: {
        // wide sheet
        int w = std::max(3, std::min(s.iarg(1), 400)), h = std::max(3, std::min(s.iarg(2), 400));
        for (int i = 0; i <= w; i++)
            for (int j = 0; j <= h; j++) m.pos.push_back(Vec3(i, j, 0.01 * ((i * 7 + j * 3) % 11)));
        for (int i = 0; i < w; i++)
            for (int j = 0; j < h; j++) {
                auto id = [&](int x, int y) { return (uint32_t)(x * (h + 1) + y); };
                grid_tri(m, id(i, j), id(i + 1, j), id(i, j + 1), id(i + 1, j + 1), false);
            }
        break;
    }
    default: add_torus(m, std::max(a, 3), std::max(b, 3), Vec3(0.0)); break;
    }
    compact(m);
    for (int k = 0; k < splits && m.tri.size() < 30000; k++) {
        size_t f = r.below(m.tri.size() / 3) * 3;
        uint32_t x = m.tri[f], y = m.tri[f + 1], z = m.tri[f + 2];
        if (r.chance(0.5)) {  // centroid
            Vec3 c = (m.pos[x] + m.pos[y] + m.pos[z]) * (1.0 / 3.0);
            uint32_t n = (uint32_t)m.pos.size();
            m.pos.push_back(c);
            m.tri[f + 2] = n;
            uint32_t t[] = {y, z, n, z, x, n};
            m.tri.insert(m.tri.end(), t, t + 6);
        } else {  // edge x-y
            size_t f2 = m.tri.size();
            int k2 = 0;
            for (size_t i = 0; i < m.tri.size(); i += 3)
                for (int k = 0; k < 3; k++)
                    if (m.tri[i + k] == y && m.tri[i + (k + 1) % 3] == x) {
                        f2 = i;
                        k2 = k;
                    }
            if (f2 == m.tri.size()) continue;
            uint32_t w = m.tri[f2 + (k2 + 2) % 3];
            uint32_t n = (uint32_t)m.pos.size();
            double lam = 0.3 + 0.4 * r.unit();
            m.pos.push_back((1.0 - lam) * m.pos[x] + lam * m.pos[y]);
            uint32_t t1[] = {x, n, z};
            uint32_t t2[] = {y, n, w};
            std::copy(t1, t1 + 3, m.tri.begin() + f);
            std::copy(t2, t2 + 3, m.tri.begin() + f2);
            uint32_t t[] = {n, y, z, n, x, w};
            m.tri.insert(m.tri.end(), t, t + 6);
        }
    }
    for (int k = 0; k < nholes; k++) {
        for (int attempt = 0; attempt < 20; attempt++) {
            std::set<uint32_t> del;
            del.insert((uint32_t)r.below(m.pos.size()));
            for (int q = 1; q < hsize; q++) {
                std::vector<uint32_t> nb;
                for (size_t i = 0; i < m.tri.size(); i++)
                    if (del.count(m.tri[i])) {
                        size_t f = i / 3 * 3;
                        for (int c = 0; c < 3; c++)
                            if (!del.count(m.tri[f + c])) nb.push_back(m.tri[f + c]);
                    }
                if (!nb.empty()) del.insert(nb[r.below(nb.size())]);
            }
            TriMesh n;
            n.pos = m.pos;
            for (size_t i = 0; i < m.tri.size(); i += 3)
                if (!del.count(m.tri[i]) && !del.count(m.tri[i + 1]) && !del.count(m.tri[i + 2]))
                    n.tri.insert(n.tri.end(), m.tri.begin() + i, m.tri.begin() + i + 3);
            if (n.tri.size() < 12) continue;
            compact(n);
            if (!tri_manifold(n)) continue;
            m = n;
            break;
        }
    }
    if (jit > 0) {
        double len = 0;
        for (size_t i = 0; i < m.tri.size(); i += 3) len += length(m.pos[m.tri[i]] - m.pos[m.tri[i + 1]]);
        len /= (double)(m.tri.size() / 3);
        for (auto &p : m.pos) p = p + Vec3(r.unit() - 0.5, r.unit() - 0.5, r.unit() - 0.5) * (jit * len);
    }
    // keep positions exactly representable in the file formats' single precision
    for (auto &p : m.pos) p = Vec3((double)(float)p[0], (double)(float)p[1], (double)(float)p[2]);
    // random face order and corner rotation
    std::vector<size_t> order(m.tri.size() / 3);
    for (size_t i = 0; i < order.size(); i++) order[i] = i;
    if (s.arg(7) != 0)
        for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[r.below(i)]);
    std::vector<uint32_t> out;
    for (size_t f : order) {
        int k = s.arg(7) != 0 ? (int)r.below(3) : 0;
        for (int c = 0; c < 3; c++) out.push_back(m.tri[f * 3 + (c + k) % 3]);
    }
    m.tri.swap(out);
    compact(m);
    if (!tri_manifold(m)) sim::tool_error("generator made a non-manifold mesh");
    return m;
}

// ================================================================ building
Mesh *build(const TriMesh &t) {
    Mesh *m = nullptr;
    Called c = call([&] { m = new Mesh(t.pos, t.tri); });
    if (!c.ok()) sim::violation("unexpected-error", "building a valid mesh failed: %s", c.what.c_str());
    return m;
}
void destroy(Mesh *m) {
    if (!m) return;
    sim::Lib in;
    delete m;
}

// ================================================================ observing
Snap snap(const Mesh &m) {
    Snap s;
    int V = (int)m.numVertices(), H = (int)m.numHalfedges(), F = (int)m.numFaces();
    std::map<const void *, int> hid, vid, fid;
    for (int i = 0; i < V; i++) {
        s.vp.push_back(m.vertex(i));
        vid[m.vertex(i)] = i;
    }
    for (int i = 0; i < H; i++) {
        s.hp.push_back(m.halfedge(i));
        hid[m.halfedge(i)] = i;
    }
    for (int i = 0; i < F; i++) {
        s.fp.push_back(m.face(i));
        fid[m.face(i)] = i;
    }
    auto look = [](const std::map<const void *, int> &t, const void *p) {
        auto it = t.find(p);
        return it == t.end() ? (p ? -2 : -1) : it->second;
    };
    for (int i = 0; i < V; i++) {
        Vertex *v = m.vertex(i);
        s.pos.push_back(v->pos());
        s.locked.push_back(v->isLocked());
        s.vhe.push_back(look(hid, v->he_begin().ptr()));
    }
    for (int i = 0; i < H; i++) {
        Halfedge *h = m.halfedge(i);
        s.hsrc.push_back(look(vid, h->src()));
        s.hnext.push_back(look(hid, h->next()));
        s.hrev.push_back(look(hid, h->rev()));
        s.hface.push_back(look(fid, h->face()));
        s.hbnd.push_back(h->isBoundary());
    }
    for (int i = 0; i < F; i++) s.fhe.push_back(look(hid, m.face(i)->he_begin().ptr()));
    return s;
}
static bool same_double(double a, double b, double tol) {
    if (memcmp(&a, &b, 8) == 0) return true;
    if (std::isnan(a) && std::isnan(b)) return true;
    if (tol <= 0) return a == b;
    return std::fabs(a - b) <= tol * (1.0 + std::fabs(a) + std::fabs(b));
}
std::string diff(const Snap &a, const Snap &b, int flags, double tol) {
    if (a.pos.size() != b.pos.size()) return fmt("number of vertices %zu vs %zu", a.pos.size(), b.pos.size());
    if (a.hsrc.size() != b.hsrc.size()) return fmt("number of half-edges %zu vs %zu", a.hsrc.size(), b.hsrc.size());
    if (a.fhe.size() != b.fhe.size()) return fmt("number of faces %zu vs %zu", a.fhe.size(), b.fhe.size());
    if (flags & D_POS)
        for (size_t i = 0; i < a.pos.size(); i++)
            for (int k = 0; k < 3; k++)
                if (!same_double(a.pos[i][k], b.pos[i][k], tol))
                    return fmt("vertex %zu coordinate %d: %.17g vs %.17g", i, k, a.pos[i][k], b.pos[i][k]);
    if (flags & D_CONN) {
        for (size_t i = 0; i < a.hsrc.size(); i++) {
            if (a.hsrc[i] != b.hsrc[i]) return fmt("half-edge %zu origin %d vs %d", i, a.hsrc[i], b.hsrc[i]);
            if (a.hnext[i] != b.hnext[i]) return fmt("half-edge %zu next %d vs %d", i, a.hnext[i], b.hnext[i]);
            if (a.hrev[i] != b.hrev[i]) return fmt("half-edge %zu opposite %d vs %d", i, a.hrev[i], b.hrev[i]);
            if (a.hface[i] != b.hface[i]) return fmt("half-edge %zu face %d vs %d", i, a.hface[i], b.hface[i]);
        }
        for (size_t i = 0; i < a.vhe.size(); i++)
            if (a.vhe[i] != b.vhe[i]) return fmt("vertex %zu first half-edge %d vs %d", i, a.vhe[i], b.vhe[i]);
        for (size_t i = 0; i < a.fhe.size(); i++)
            if (a.fhe[i] != b.fhe[i]) return fmt("face %zu first half-edge %d vs %d", i, a.fhe[i], b.fhe[i]);
    }
    if (flags & D_BND)
        for (size_t i = 0; i < a.hbnd.size(); i++)
            if (a.hbnd[i] != b.hbnd[i]) return fmt("boundary mark of half-edge %zu: %d vs %d", i, a.hbnd[i], b.hbnd[i]);
    if (flags & D_LOCK)
        for (size_t i = 0; i < a.locked.size(); i++)
            if (a.locked[i] != b.locked[i]) return fmt("lock of vertex %zu: %d vs %d", i, a.locked[i], b.locked[i]);
    if (flags & D_PTR) {
        for (size_t i = 0; i < a.vp.size(); i++)
            if (a.vp[i] != b.vp[i]) return fmt("vertex number %zu is another vertex object", i);
        for (size_t i = 0; i < a.hp.size(); i++)
            if (a.hp[i] != b.hp[i]) return fmt("half-edge number %zu is another object", i);
        for (size_t i = 0; i < a.fp.size(); i++)
            if (a.fp[i] != b.fp[i]) return fmt("face number %zu is another object", i);
    }
    return "";
}
static uint64_t hmix(uint64_t h, uint64_t v) { return sim::mix64(h ^ (v + 0x1234567)); }
uint64_t digest(const Snap &s) {
    uint64_t h = 99;
    for (auto &p : s.pos)
        for (int k = 0; k < 3; k++) {
            double d = p[k];
            uint64_t u;
            memcpy(&u, &d, 8);
            h = hmix(h, u);
        }
    for (size_t i = 0; i < s.hsrc.size(); i++)
        h = hmix(h, (uint64_t)s.hsrc[i] * 1000003u + (uint64_t)s.hnext[i] * 10007u + (uint64_t)s.hrev[i] * 31u + (uint64_t)s.hface[i] * 7u + (uint64_t)s.hbnd[i]);
    for (auto c : s.locked) h = hmix(h, (uint64_t)c);
    for (auto c : s.vhe) h = hmix(h, (uint64_t)c);
    for (auto c : s.fhe) h = hmix(h, (uint64_t)c);
    return h;
}
uint64_t digest(const Mesh &m) { return digest(snap(m)); }

std::string validate(const Mesh &m, bool finite, bool lone) {
    Snap s = snap(m);
    int V = (int)s.pos.size(), H = (int)s.hsrc.size(), F = (int)s.fhe.size();
    {
        std::set<const void *> u;
        for (auto p : s.vp)
            if (!p || !u.insert(p).second || !sim::heap_is_live(p, sizeof(Vertex))) return "a vertex slot is null, shared or refers to freed memory";
        for (auto p : s.hp)
            if (!p || !u.insert(p).second || !sim::heap_is_live(p, sizeof(Halfedge))) return "a half-edge slot is null, shared or refers to freed memory";
        for (auto p : s.fp)
            if (!p || !u.insert(p).second || !sim::heap_is_live(p, sizeof(Face))) return "a face slot is null, shared or refers to freed memory";
    }
    for (int i = 0; i < V; i++) {
        if (m.vertex(i)->index() != i) return fmt("vertex in slot %d has number %d", i, m.vertex(i)->index());
        if (s.vhe[i] < 0) return fmt("vertex %d refers to %s half-edge", i, s.vhe[i] == -1 ? "no" : "a removed");
        if (s.hsrc[s.vhe[i]] != i) return fmt("vertex %d refers to half-edge %d which leaves vertex %d", i, s.vhe[i], s.hsrc[s.vhe[i]]);
        if (finite)
            for (int k = 0; k < 3; k++)
                if (!std::isfinite(s.pos[i][k])) return fmt("vertex %d has a position that is not finite", i);
    }
    for (int i = 0; i < H; i++) {
        if (m.halfedge(i)->index() != i) return fmt("half-edge in slot %d has number %d", i, m.halfedge(i)->index());
        if (s.hsrc[i] < 0) return fmt("half-edge %d has %s origin", i, s.hsrc[i] == -1 ? "no" : "a removed");
        if (s.hnext[i] < 0) return fmt("half-edge %d has %s successor", i, s.hnext[i] == -1 ? "no" : "a removed");
        if (s.hrev[i] < 0) return fmt("half-edge %d has %s opposite", i, s.hrev[i] == -1 ? "no" : "a removed");
        if (s.hface[i] < 0) return fmt("half-edge %d has %s face", i, s.hface[i] == -1 ? "no" : "a removed");
    }
    for (int i = 0; i < F; i++) {
        if (m.face(i)->index() != i) return fmt("face in slot %d has number %d", i, m.face(i)->index());
        if (s.fhe[i] < 0) return fmt("face %d has %s half-edge", i, s.fhe[i] == -1 ? "no" : "a removed");
    }
    for (int i = 0; i < H; i++) {
        int r = s.hrev[i];
        if (r == i) return fmt("half-edge %d is its own opposite", i);
        if (s.hrev[r] != i) return fmt("half-edge %d: opposite of its opposite is %d", i, s.hrev[r]);
        if (s.hsrc[s.hnext[i]] != s.hsrc[r]) return fmt("half-edge %d ends at vertex %d but its opposite starts at %d", i, s.hsrc[s.hnext[i]], s.hsrc[r]);
        if (s.hsrc[i] == s.hsrc[r]) return fmt("half-edge %d joins vertex %d to itself", i, s.hsrc[i]);
        if (s.hbnd[i] != s.hbnd[r]) return fmt("boundary marks of half-edges %d and %d differ", i, r);
    }
    std::vector<int> seen(H, -1);
    std::vector<char> hole(F, 0);
    for (int f = 0; f < F; f++) {
        int h = s.fhe[f], n = 0;
        bool allb = true;
        do {
            if (seen[h] >= 0) return fmt("half-edge %d is on the loops of faces %d and %d", h, seen[h], f);
            seen[h] = f;
            if (s.hface[h] != f) return fmt("half-edge %d on the loop of face %d names face %d", h, f, s.hface[h]);
            allb = allb && s.hbnd[h];
            n++;
            h = s.hnext[h];
            if (n > H) return fmt("the loop of face %d does not close", f);
        } while (h != s.fhe[f]);
        hole[f] = allb;
        if (!allb && n != 3) return fmt("face %d has %d corners", f, n);
        if (n < 3) return fmt("face %d has %d corners", f, n);
    }
    for (int i = 0; i < H; i++)
        if (seen[i] < 0) return fmt("half-edge %d is on no face loop", i);
    if (lone)
        // a triangle without neighbours looks like the boundary loop around it: count one of the two
        for (int f = 0; f < F; f++) {
            int h = s.fhe[f], o = s.hface[s.hrev[h]];
            bool pair = hole[f] && hole[o] && o > f;
            for (int k = 0; pair && k < 3; k++, h = s.hnext[h]) pair = s.hface[s.hrev[h]] == o;
            if (pair && h == s.fhe[f]) hole[f] = 0;
        }
    std::set<std::pair<int, int>> de;
    std::vector<int> outdeg(V, 0), holecorner(V, 0);
    for (int i = 0; i < H; i++) {
        if (!de.insert({s.hsrc[i], s.hsrc[s.hrev[i]]}).second)
            return fmt("two faces share the directed edge %d->%d", s.hsrc[i], s.hsrc[s.hrev[i]]);
        outdeg[s.hsrc[i]]++;
        if (hole[s.hface[i]]) holecorner[s.hsrc[i]]++;
        if (s.hbnd[i] && hole[s.hface[i]] + hole[s.hface[s.hrev[i]]] != 1)
            return fmt("edge %d is marked as boundary but %s of its sides is a boundary loop", i, hole[s.hface[i]] ? "each" : "none");
    }
    for (int v = 0; v < V; v++) {
        int h = s.vhe[v], n = 0;
        do {
            if (s.hsrc[h] != v) return fmt("turning around vertex %d leads to vertex %d", v, s.hsrc[h]);
            n++;
            h = s.hnext[s.hrev[h]];
            if (n > H) return fmt("turning around vertex %d does not close", v);
        } while (h != s.vhe[v]);
        if (n != outdeg[v]) return fmt("the faces around vertex %d form more than one fan (%d of %d half-edges reached)", v, n, outdeg[v]);
        if (holecorner[v] > 1) return fmt("vertex %d lies on %d boundary corners", v, holecorner[v]);
        if (n < 2) return fmt("vertex %d has degree %d", v, n);
    }
    return "";
}
Topo topology(const Mesh &m) {
    Snap s = snap(m);
    Topo t = {};
    t.V = (int)s.pos.size();
    t.E = (int)s.hsrc.size() / 2;
    std::vector<char> allb(s.fhe.size(), 1);
    for (size_t i = 0; i < s.hsrc.size(); i++)
        if (!s.hbnd[i] && s.hface[i] >= 0) allb[s.hface[i]] = 0;
    for (auto b : allb) (b ? t.loops : t.F)++;
    std::vector<int> uf(t.V);
    for (int i = 0; i < t.V; i++) uf[i] = i;
    std::function<int(int)> root = [&](int x) { return uf[x] == x ? x : uf[x] = root(uf[x]); };
    for (size_t i = 0; i < s.hsrc.size(); i++) {
        int d = s.hrev[i] >= 0 ? s.hsrc[s.hrev[i]] : -1;
        if (d >= 0 && s.hsrc[i] >= 0) uf[root(s.hsrc[i])] = root(d);
    }
    for (int i = 0; i < t.V; i++) t.comps += root(i) == i;
    t.chi = t.V - t.E + t.F;
    return t;
}
std::vector<Face *> holes(const Mesh &m) {
    std::vector<Face *> r;
    for (int i = 0; i < (int)m.numFaces(); i++) {
        Face *f = m.face(i);
        bool all = true;
        Halfedge *h0 = f->he_begin().ptr(), *h = h0;
        size_t n = 0;
        do {
            all = all && h->isBoundary();
            h = h->next();
        } while (h != h0 && ++n < m.numHalfedges());
        if (all) r.push_back(f);
    }
    return r;
}
size_t widest(const Mesh &m) {
    size_t w = 0;
    for (auto f : holes(m)) {
        size_t n = 0;
        Halfedge *h = f->he_begin().ptr(), *h0 = h;
        do {
            n++;
            h = h->next();
        } while (h != h0);
        w = std::max(w, n);
    }
    return w;
}
std::vector<std::array<int, 3>> triangles(const Mesh &m) {
    std::vector<std::array<int, 3>> r;
    std::set<Face *> hs;
    for (auto f : holes(m)) hs.insert(f);
    for (int i = 0; i < (int)m.numFaces(); i++) {
        Face *f = m.face(i);
        if (hs.count(f)) continue;
        Halfedge *h = f->he_begin().ptr();
        std::array<int, 3> t = {h->src()->index(), h->next()->src()->index(), h->next()->next()->src()->index()};
        std::rotate(t.begin(), std::min_element(t.begin(), t.end()), t.end());
        r.push_back(t);
    }
    std::sort(r.begin(), r.end());
    return r;
}
std::set<std::array<const Vertex *, 3>> triangle_ptrs(const Mesh &m) {
    std::set<std::array<const Vertex *, 3>> r;
    std::set<Face *> hs;
    for (auto f : holes(m)) hs.insert(f);
    for (int i = 0; i < (int)m.numFaces(); i++) {
        Face *f = m.face(i);
        if (hs.count(f)) continue;
        Halfedge *h = f->he_begin().ptr();
        std::array<const Vertex *, 3> t = {h->src(), h->next()->src(), h->next()->next()->src()};
        std::rotate(t.begin(), std::min_element(t.begin(), t.end()), t.end());
        r.insert(t);
    }
    return r;
}
void Bytes::mesh(const Mesh &m) {
    Snap s = snap(m);
    u64(s.pos.size());
    u64(s.hsrc.size());
    u64(s.fhe.size());
    for (auto &p : s.pos)
        for (int k = 0; k < 3; k++) d(p[k]);
    for (size_t i = 0; i < s.hsrc.size(); i++) {
        u64((uint64_t)s.hsrc[i]);
        u64((uint64_t)s.hnext[i]);
        u64((uint64_t)s.hrev[i]);
        u64((uint64_t)s.hface[i]);
        u64((uint64_t)s.hbnd[i]);
    }
    for (auto c : s.locked) u64((uint64_t)c);
    for (auto c : s.vhe) u64((uint64_t)c);
    for (auto c : s.fhe) u64((uint64_t)c);
}

// ================================================================ reference execution
struct RefShared {
    sim::Result res;
    uint64_t size;
    unsigned char data[24 << 20];
};
RefResult run_reference(const sim::Config &cfg, const std::function<std::vector<unsigned char>()> &fn) {
    RefShared *sh = (RefShared *)mmap(nullptr, sizeof(RefShared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (sh == MAP_FAILED) sim::tool_error("mmap failed");
    pid_t pid = fork();
    if (pid < 0) sim::tool_error("fork failed");
    if (pid == 0) {
        alarm(100);
        sim::rt_begin(cfg, &sh->res);
        sim::g.cur->nthreads = cfg.threads;
        sim::g.on_terminate = nullptr;
        std::vector<unsigned char> b = fn();
        if (b.size() > sizeof sh->data) sim::tool_error("reference result too large");
        memcpy(sh->data, b.data(), b.size());
        sh->size = b.size();
        sim::finish_ok();
    }
    int st;
    while (waitpid(pid, &st, 0) < 0) {}
    RefResult r;
    if (sh->res.outcome == sim::O_OK) {
        r.done = true;
        r.bytes.assign(sh->data, sh->data + sh->size);
    } else if (sh->res.outcome == sim::O_VIOLATION) {
        r.cls = sh->res.cls;
        r.msg = sh->res.msg;
        if (!sim::g.res->pc1) {
            sim::g.res->pc1 = sh->res.pc1;
            sim::g.res->pc2 = sh->res.pc2;
        }
    } else {
        std::string m = sh->res.msg;
        sim::tool_error("reference execution failed: %s (status %d)", m.c_str(), st);
    }
    sim::g.res->steps += 0;
    sim::hash_in(sh->res.hash);
    sim::probe("reference_executions");
    munmap(sh, sizeof(RefShared));
    return r;
}

// ================================================================ standard output
static char out_buf[1 << 18];
static size_t out_n;
class Capture : public std::streambuf {
    int overflow(int c) override {
        if (c != EOF && out_n < sizeof out_buf) out_buf[out_n++] = (char)c;
        return c == EOF ? 0 : c;
    }
    std::streamsize xsputn(const char *s, std::streamsize n) override {
        size_t k = std::min<size_t>((size_t)n, sizeof out_buf - out_n);
        memcpy(out_buf + out_n, s, k);
        out_n += k;
        return n;
    }
};
static Capture capture_out, capture_err_unused;
class Sink : public std::streambuf {
    int overflow(int c) override { return c == EOF ? 0 : c; }
    std::streamsize xsputn(const char *, std::streamsize n) override { return n; }
};
static Sink sink;
void install_capture() {
    std::cout.rdbuf(&capture_out);
    std::cerr.rdbuf(&sink);
}
const char *captured_out(size_t *n) {
    *n = out_n;
    return out_buf;
}
void captured_reset() { out_n = 0; }

// ================================================================ operations
static Halfedge *he_at(Mesh &m, double a) {
    size_t n = m.numHalfedges();
    return n ? m.halfedge((int)((uint64_t)std::fabs(a) % n)) : nullptr;
}
static Vertex *v_at(Mesh &m, double a) {
    size_t n = m.numVertices();
    return n ? m.vertex((int)((uint64_t)std::fabs(a) % n)) : nullptr;
}
bool mutate(Mesh &m, const Op &op, Called &res) {
    const std::string &n = op.name;
    res = Called();
    if (n == "lap") res = call([&] { smoothLaplacian(m, op.arg(0, 0.5), op.arg(1) != 0, op.iarg(2, 1)); });
    else if (n == "taubin") res = call([&] { smoothTaubin(m, op.arg(0, 0.5), op.arg(1, 0.53), op.iarg(2, 1)); });
    else if (n == "fairing") res = call([&] { implicitFairing(m, op.arg(0, 0.1), op.iarg(1, 1)); });
    else if (n == "gauss") res = call([&] { denoiseNormalGaussian(m, op.arg(0, 0.2), op.iarg(1, 1)); });
    else if (n == "bilat") res = call([&] { denoiseNormalBilateral(m, op.arg(0, 0.2), op.arg(1, 0.1), op.iarg(2, 1)); });
    else if (n == "l0") res = call([&] { denoiseL0Smooth(m, op.arg(0, 0.1), op.arg(1, 1.0e-3)); });
    else if (n == "split") { Halfedge *h = he_at(m, op.arg(0)); if (h) res = call([&] { m.splitHE(h); }); }
    else if (n == "collapse") { Halfedge *h = he_at(m, op.arg(0)); if (h) res = call([&] { m.collapseHE(h); }); }
    else if (n == "flip") { Halfedge *h = he_at(m, op.arg(0)); if (h) res = call([&] { m.flipHE(h); }); }
    else if (n == "cface") {
        Face *f = m.numFaces() ? m.face((int)((uint64_t)std::fabs(op.arg(0)) % m.numFaces())) : nullptr;
        Halfedge *h = f ? f->he_begin().ptr() : nullptr;
        if (h && h->next()->next()->next() == h) res = call([&] { m.collapseFace(f); });
    }
    else if (n == "fillholes") res = call([&] { m.fillHoles(); });
    else if (n == "fillmin" || n == "filladv") {
        auto hs = holes(m);
        if (!hs.empty()) {
            Face *f = hs[(size_t)std::fabs(op.arg(0)) % hs.size()];
            if (n == "fillmin") res = call([&] { holeFillMinDihedral(m, f, op.arg(1, Pi)); });
            else res = call([&] { holeFillAdvancingFront(m, f); });
        }
    } else if (n == "remesh")
        res = call([&] { remeshTriangular(m, op.arg(0, 0.8), op.arg(1, 1.333), op.arg(2, 0.0), op.iarg(3, 1), op.arg(4) != 0); });
    else if (n == "simplify") {
        int target = std::max(4, (int)((double)m.numFaces() * op.arg(0, 0.5)));
        res = call([&] { simplifyQEM(m, target, op.iarg(1, 3), op.arg(2) != 0); });
    } else if (n == "complete")
        res = call([&] { holeFillContextCoherent(m, op.iarg(0, 1)); });
    else if (n == "lock") { Vertex *v = v_at(m, op.arg(0)); if (v) v->lock(); }
    else if (n == "unlock") { Vertex *v = v_at(m, op.arg(0)); if (v) v->unlock(); }
    else if (n == "move") { Vertex *v = v_at(m, op.arg(0)); if (v) v->setPos(v->pos() + Vec3(op.arg(1), op.arg(2), op.arg(3))); }
    else return false;
    return true;
}

static void put_vec(Bytes &o, const Vec3 &v) { for (int k = 0; k < 3; k++) o.d(v[k]); }
template <typename M>
static void put_mat(Bytes &o, const M &x) {
    o.u64((uint64_t)x.rows());
    o.u64((uint64_t)x.cols());
    for (int i = 0; i < x.rows(); i++)
        for (int j = 0; j < x.cols(); j++) o.d(x(i, j));
}
// a clone of the mesh, a little to the side and smaller
static Mesh *moved_clone(const Mesh &m, Called &c) {
    Mesh *k = nullptr;
    c = call([&] { k = new Mesh(const_cast<Mesh &>(m).clone()); });
    for (size_t i = 0; k && i < k->numVertices(); i++) k->vertex((int)i)->setPos(k->vertex((int)i)->pos() * 0.9 + Vec3(0.03, 0.05, -0.02));
    return k;
}
// all ways to walk around an element, by number of the element met
template <typename It, typename F>
static void walk(Bytes &o, It b, It e, F index) {
    for (It it = b; it != e; ++it) {
        o.u64((uint64_t)index(*it));
        if (&*it != it.ptr() || it.operator->() != it.ptr()) o.str("iterator differs from itself");
    }
    It it = b;
    it++;
    o.u64(it != e);
}
template <typename E>
static void walk_around(Bytes &o, E *x) {
    auto num = [](const auto &e) { return e.index(); };
    walk(o, x->v_begin(), x->v_end(), num);
    walk(o, x->he_begin(), x->he_end(), num);
    walk(o, x->f_begin(), x->f_end(), num);
    const E *y = x;
    walk(o, y->v_begin(), y->v_end(), num);
    walk(o, y->he_begin(), y->he_end(), num);
    walk(o, y->f_begin(), y->f_end(), num);
    o.u64(*y == *x);
}
bool query(const Mesh &m, const Op &op, Bytes &out) {
    const std::string &n = op.name;
    Called c;
    out.str(n);
    if (n == "counts") {
        size_t v = 0, e = 0, f = 0, h = 0;
        c = call([&] { v = m.numVertices(); e = m.numEdges(); f = m.numFaces(); h = m.numHalfedges(); });
        out.u64(v); out.u64(e); out.u64(f); out.u64(h);
    } else if (n == "stats") {
        double a = 0, b = 0, d = 0;
        c = call([&] { a = m.getMeanEdgeLength(); b = m.getMeanDihedralAngle(); d = m.getMeanFaceArea(); });
        out.d(a); out.d(b); out.d(d);
    } else if (n == "verts") {
        double acc = 0;
        Vec3 nn(0.0);
        int deg = 0;
        bool bd = false;
        Vertex *v = m.vertex((int)((uint64_t)op.arg(0) % m.numVertices()));
        double K = 0, H = 0;
        c = call([&] { nn = v->normal(); deg = v->degree(); bd = v->isBoundary(); acc = v->volonoiArea(); K = v->K(); H = v->H(); });
        put_vec(out, nn); out.u64((uint64_t)deg); out.u64(bd); out.d(acc); out.d(K); out.d(H);
    } else if (n == "faces") {
        Face *f = m.face((int)((uint64_t)op.arg(0) % m.numFaces()));
        Vec3 nn(0.0);
        double a = 0;
        int k = 0;
        bool h = false, b = false, l = false;
        c = call([&] { nn = f->normal(); a = f->area(); k = f->numCorners(); h = f->isHole(); b = f->isBoundary(); l = f->isLocked(); });
        put_vec(out, nn); out.d(a); out.u64((uint64_t)k); out.u64(h); out.u64(b); out.u64(l);
    } else if (n == "edges") {
        Halfedge *h = m.halfedge((int)((uint64_t)op.arg(0) % m.numHalfedges()));
        double a = 0, b = 0;
        c = call([&] { a = h->length(); b = h->cotWeight(); });
        out.d(a); out.d(b);
    } else if (n == "around") {
        Vertex *v = m.vertex((int)((uint64_t)op.arg(0) % m.numVertices()));
        Face *f = m.face((int)((uint64_t)op.arg(0) % m.numFaces()));
        Halfedge *h = m.halfedge((int)((uint64_t)op.arg(0) % m.numHalfedges()));
        Bytes b;
        c = call([&] {
            walk_around(b, v);
            walk_around(b, f);
            b.u64((uint64_t)h->prev()->index());
            b.u64(h->isLocked());
            b.u64(h->isBoundary());
            b.u64(*h == *h->rev()->rev());
            const Face *own = v->he_begin()->face();
            if (own->numCorners() == 3) b.d(v->volonoiArea(own));
            if (f->numCorners() == 3) {
                Triangle t = f->toTriangle();
                Vec3 at = t.closestPoint(Vec3(op.arg(1), op.arg(2), op.arg(3)));
                for (int k = 0; k < 3; k++) b.d(at[k]);
                b.d(t.distance(Vec3(op.arg(1), op.arg(2), op.arg(3))));
                b.d(t.bounds().area());
            }
        });
        out.str(std::string(b.b.begin(), b.b.end()));
    } else if (n == "export") {
        std::vector<Vec3> p;
        std::vector<uint32_t> t;
        c = call([&] { p = m.getVertices(); t = m.getVertexIndices(); });
        for (auto &v : p) put_vec(out, v);
        for (auto i : t) out.u64(i);
    } else if (n == "verify") {
        bool ok = false;
        c = call([&] { ok = m.verify(); });
        out.u64(ok);
    } else if (n == "laplace") {
        EigenSparseMatrix L;
        c = call([&] { L = getMeshLaplacian(m, (MeshLaplace)(op.iarg(0) % 3)); });
        if (c.ok()) out.u64((uint64_t)L.nonZeros());
        for (int k = 0; c.ok() && k < L.outerSize(); k++)
            for (EigenSparseMatrix::InnerIterator it(L, k); it; ++it) { out.u64((uint64_t)it.row()); out.d(it.value()); }
    } else if (n == "hks") {
        // the eigen solver needs more vertices than requested pairs
        if (m.numVertices() < 12) return true;
        EigenMatrix h;
        c = call([&] {
            EigenSparseMatrix L = getMeshLaplacian(m, MeshLaplace::Cotangent);
            h = getHeatKernelSignatures(L, op.iarg(0, 10), op.iarg(1, 4));
        });
        put_mat(out, h);
    } else if (n == "curv") {
        EigenVector a, b;
        EigenMatrix x, y;
        c = call([&] { std::tie(a, b, x, y) = getPrincipalCurvatures(m, op.arg(0) != 0); });
        put_mat(out, a); put_mat(out, b); put_mat(out, x); put_mat(out, y);
    } else if (n == "curvd") {
        EigenVector a, b, d, e;
        EigenMatrix x, y;
        c = call([&] { std::tie(a, b, d, e, x, y) = getPrincipalCurvaturesWithDerivatives(m, op.arg(0) != 0); });
        put_mat(out, a); put_mat(out, b); put_mat(out, d); put_mat(out, e); put_mat(out, x); put_mat(out, y);
    } else if (n == "feature") {
        EigenMatrix x;
        EigenVector fl;
        c = call([&] {
            if (op.arg(1) != 0) x = getFeatureLineField(m, op.arg(0) != 0);
            else std::tie(x, fl) = getFeatureLineFieldWithFlags(m, op.arg(0) != 0);
        });
        put_mat(out, x); put_mat(out, fl);
    } else if (n == "dist") {
        EigenVector dd;
        Mesh *k = op.arg(0) != 0 ? moved_clone(m, c) : nullptr;
        if (c.ok()) c = call([&] { dd = getPerVertexShortestDistances(m, k ? *k : m); });
        destroy(k);
        put_mat(out, dd);
    } else if (n == "hausdorff") {
        double d = 0;
        Mesh *k = op.arg(0) != 0 ? moved_clone(m, c) : nullptr;
        if (c.ok()) c = call([&] { d = getHausdorffDistance(m, k ? *k : m); });
        destroy(k);
        out.d(d);
    } else if (n == "bvh") {
        Vec3 p(0.0);
        double d = 0;
        Vec3 q(op.arg(0), op.arg(1), op.arg(2));
        c = call([&] { BVH b(m); p = b.closestPoint(q); d = b.distance(q); });
        put_vec(out, p); out.d(d);
    } else if (n == "clone") {
        Mesh *k = nullptr;
        c = call([&] { k = new Mesh(const_cast<Mesh &>(m).clone()); });
        if (k) out.mesh(*k);
        destroy(k);
    } else
        return false;
    out.u64((uint64_t)c.end);
    out.str(c.what);
    return true;
}

void sample(const Plan &p, const std::string &extra) {
    if (!sim::g.res) return;
    std::string t = fmt("idx %llu ", (unsigned long long)p.idx);
    for (auto &m : p.meshes) {
        t += "mesh(";
        for (double d : m.a) t += fmt("%g ", d);
        t += ") ";
    }
    for (auto &o : p.ops) {
        t += o.name + "(";
        for (double d : o.a) t += fmt("%.6g ", d);
        t += ") ";
        if (t.size() > 700) { t += "... "; break; }
    }
    for (auto &o : p.faults) {
        t += "fault:" + o.name + "(";
        for (double d : o.a) t += fmt("%g ", d);
        t += ") ";
        if (t.size() > 850) break;
    }
    t += extra;
    snprintf(sim::g.res->sample, sizeof sim::g.res->sample, "%s", t.c_str());
}
}  // namespace wl
