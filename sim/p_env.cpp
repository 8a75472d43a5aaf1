// C12-C18: memory placement, saving and loading on faulty storage, reuse of objects, clocks, memory exhaustion.
#include <algorithm>
#include <cerrno>
#include <cstdio>
#include <cstring>

#include "common.h"
#include "core/progress.h"
#include "core/utils.h"
#include "filters/filters.h"
#include "remesh/remesh.h"
#include "restore/restore.h"

using namespace tinymesh;

namespace wl {

static const bool is_py = std::string(VARIANT) == "py";

// ---------------------------------------------------------------- shared pieces
static Op gen_mutation(Rng &r, bool heavy) {
    double i = (double)r.below(1000000);
    switch (r.range(0, heavy ? 16 : 8)) {
    case 0: return Op{"split", {i}};
    case 1: return Op{"collapse", {i}};
    case 2: return Op{"flip", {i}};
    case 3: return Op{"lap", {0.1 + 0.8 * r.unit(), (double)r.below(2), 1}};
    case 4: return Op{"taubin", {0.5, 0.53, 1}};
    case 5: return Op{"fillmin", {i, r.chance(0.5) ? Pi : 0.1 + 3 * r.unit()}};
    case 6: return Op{"lock", {i}};
    case 7: return Op{"move", {i, 0.2 * r.unit() - 0.1, 0.2 * r.unit() - 0.1, 0.2 * r.unit() - 0.1}};
    case 8: return Op{"filladv", {i}};
    case 9: return Op{"gauss", {0.1 + r.unit(), 1}};
    case 10: return Op{"bilat", {0.1 + r.unit(), 0.05 + r.unit(), 1}};
    case 11: return Op{"fairing", {0.01 + r.unit(), 1}};
    case 12: return Op{"l0", {0.1, 0.5 + r.unit()}};
    case 13: return Op{"remesh", {0.6 + 0.3 * r.unit(), 1.2 + 0.5 * r.unit(), r.chance(0.5) ? 0.0 : r.unit(), 1, (double)r.below(2)}};
    case 14: return Op{"simplify", {0.3 + 0.6 * r.unit(), (double)r.range(1, 3), (double)r.below(2)}};
    case 15: return Op{"cface", {i}};
    default: return Op{"fillholes", {}};
    }
}
static Op gen_query(Rng &r) {
    double i = (double)r.below(1000000);
    switch (r.range(0, 14)) {
    case 0: return Op{"counts", {}};
    case 1: return Op{"stats", {}};
    case 2: return r.chance(0.5) ? Op{"verts", {i}} : Op{"around", {i, r.unit(), r.unit(), r.unit()}};
    case 3: return Op{"faces", {i}};
    case 4: return Op{"edges", {i}};
    case 5: return Op{"export", {}};
    case 6: return Op{"verify", {}};
    case 7: return Op{"laplace", {(double)r.below(3)}};
    case 8: return Op{"hks", {10, 4}};
    case 9: return Op{"curv", {(double)r.below(2)}};
    case 10: return Op{"curvd", {(double)r.below(2)}};
    case 11: return Op{"feature", {(double)r.below(2), (double)r.below(2)}};
    case 12: return Op{r.chance(0.5) ? "dist" : "hausdorff", {(double)r.below(2)}};
    case 13: return Op{"bvh", {2 * r.unit() - 1, 2 * r.unit() - 1, 2 * r.unit() - 1}};
    default: return Op{"clone", {}};
    }
}
static bool all_tri(const Mesh &m) {
    for (auto f : holes(m)) {
        int n = 0;
        Halfedge *h = f->he_begin().ptr(), *h0 = h;
        do {
            n++;
            h = h->next();
        } while (h != h0);
        if (n > 3) return false;
    }
    return true;
}
// operations the library refuses by design on this mesh are left out
static bool applicable(const Mesh &m, const Op &op) {
    if (m.numFaces() == 0) return false;
    if ((op.name == "gauss" || op.name == "bilat" || op.name == "l0" || op.name == "curv" || op.name == "curvd" || op.name == "feature") && !all_tri(m)) return false;
    // keeps the iterative solver within the step budget
    if (op.name == "l0" && m.numVertices() > 80) return false;
    if (op.name == "filladv" && widest(m) > 14) return false;
    if (op.name == "fillholes" && widest(m) > 40) return false;
    return true;
}
static bool distinguishable(const Mesh &m, int how);

// ---------------------------------------------------------------- files written by other programs
struct FileSpec {
    std::string bytes, ext;
    size_t header = 0;   // binary formats: bytes of the header
    bool binary = false;
};
static void put_bin(std::string &o, const void *v, size_t n, bool be) {
    const char *c = (const char *)v;
    for (size_t i = 0; i < n; i++) o += be ? c[n - 1 - i] : c[i];
}
enum { NSTYLE = 17 };
static FileSpec make_file(const TriMesh &t, int style) {
    FileSpec f;
    style = ((style % NSTYLE) + NSTYLE) % NSTYLE;
    size_t nv = t.pos.size(), nf = t.tri.size() / 3;
    if (style >= 11) {
        f.ext = ".obj";
        const char *nl = style == 14 ? "\r\n" : "\n";
        if (style >= 14) f.bytes += std::string("# written by hand") + nl + "mtllib none.mtl" + nl;
        if (style == 15) f.bytes += std::string("o first") + nl;
        for (size_t i = 0; i < nv; i++) f.bytes += fmt("v %.9g %.9g %.9g", t.pos[i][0], t.pos[i][1], t.pos[i][2]) + nl;
        if (style == 12)
            for (size_t i = 0; i < nv; i++) f.bytes += fmt("vt %g %g", 0.5, 0.25) + nl + fmt("vn %g %g %g", 0.0, 0.0, 1.0) + nl;
        for (size_t i = 0; i < nf; i++) {
            if (style == 15 && i == nf / 2) f.bytes += std::string("o second") + nl + "usemtl none" + nl;
            long a[3];
            for (int k = 0; k < 3; k++) a[k] = style == 13 ? (long)t.tri[3 * i + k] - (long)nv : (long)t.tri[3 * i + k] + 1;
            if (style == 12) f.bytes += fmt("f %ld/%ld/%ld %ld/%ld/%ld %ld/%ld/%ld", a[0], a[0], a[0], a[1], a[1], a[1], a[2], a[2], a[2]) + nl;
            else if (style == 16) f.bytes += fmt("f %ld//%ld %ld//%ld %ld//%ld", a[0], a[0], a[1], a[1], a[2], a[2]) + nl;
            else f.bytes += fmt("f %ld %ld %ld", a[0], a[1], a[2]) + nl;
        }
        return f;
    }
    f.ext = ".ply";
    bool ascii = style == 1, be = style == 2, dbl = style == 4, extra = style == 3, facesfirst = style == 9;
    f.binary = !ascii;
    const char *it = style == 5 ? "ushort" : style == 3 || style == 6 ? "int" : "uint";
    size_t is = style == 5 ? 2 : 4;
    const char *ct = style == 6 ? "int" : "uchar";
    std::string &o = f.bytes;
    o = "ply\n";
    o += ascii ? "format ascii 1.0\n" : be ? "format binary_big_endian 1.0\n" : "format binary_little_endian 1.0\n";
    if (extra) o += "comment made elsewhere\n";
    std::string hv = fmt("element vertex %zu\n", nv);
    for (const char *c : {"x", "y", "z"}) hv += fmt("property %s %s\n", dbl ? "double" : "float", c);
    if (extra)
        for (const char *c : {"nx", "ny", "nz", "u", "v"}) hv += fmt("property float %s\n", c);
    if (extra) hv += "property uchar red\n";
    std::string hf = fmt("element face %zu\nproperty list %s %s %s\n", nf, ct, it, style == 7 ? "vertex_index" : "vertex_indices");
    o += facesfirst ? hf + hv : hv + hf;
    if (style == 8) o += "element edge 2\nproperty int a\nproperty int b\n";
    o += "end_header\n";
    f.header = o.size();
    auto verts = [&] {
        for (size_t i = 0; i < nv; i++) {
            if (ascii) {
                o += fmt("%.9g %.9g %.9g\n", t.pos[i][0], t.pos[i][1], t.pos[i][2]);
                continue;
            }
            for (int k = 0; k < 3; k++) {
                if (dbl) {
                    double d = t.pos[i][k];
                    put_bin(o, &d, 8, be);
                } else {
                    float d = (float)t.pos[i][k];
                    put_bin(o, &d, 4, be);
                }
            }
            if (extra) {
                float z[5] = {0, 0, 1, 0.5f, 0.25f};
                for (float x : z) put_bin(o, &x, 4, be);
                o += (char)200;
            }
        }
    };
    auto faces = [&] {
        for (size_t i = 0; i < nf; i++) {
            if (ascii) {
                o += fmt("3 %u %u %u\n", t.tri[3 * i], t.tri[3 * i + 1], t.tri[3 * i + 2]);
                continue;
            }
            uint32_t n = 3;
            put_bin(o, &n, style == 6 ? 4 : 1, be);
            for (int k = 0; k < 3; k++) {
                uint32_t x = t.tri[3 * i + k];
                put_bin(o, &x, is, be);
            }
        }
    };
    if (facesfirst) {
        faces();
        verts();
    } else {
        verts();
        faces();
    }
    if (style == 8) {
        uint32_t e[4] = {0, 1, 1, 2};
        for (uint32_t x : e) put_bin(o, &x, 4, be);
    }
    return f;
}

// ---------------------------------------------------------------- reading what the library wrote, without the library
struct Stored {
    std::vector<Vec3> pos;
    std::vector<std::array<int, 3>> tri;
    bool single = false;  // positions stored with float precision
};
static std::string read_obj(const std::string &s, Stored &o) {
    size_t i = 0;
    bool ended = true;
    while (i < s.size()) {
        size_t e = s.find('\n', i);
        ended = e != std::string::npos;
        std::string l = s.substr(i, ended ? e - i : std::string::npos);
        i = ended ? e + 1 : s.size();
        while (!l.empty() && (l.back() == '\r' || l.back() == ' ')) l.pop_back();
        if (l.empty() || l[0] == '#') continue;
        if (l.compare(0, 2, "v ") == 0) {
            double x, y, z;
            char c;
            if (sscanf(l.c_str() + 2, "%lf %lf %lf%c", &x, &y, &z, &c) != 3) return "bad vertex line: " + l;
            o.pos.push_back(Vec3(x, y, z));
        } else if (l.compare(0, 2, "f ") == 0) {
            std::array<int, 3> a;
            const char *p = l.c_str() + 2;
            int n = 0;
            while (*p) {
                char *q;
                long v = strtol(p, &q, 10);
                if (q == p || n == 3) return "bad face line: " + l;
                a[(size_t)n++] = (int)v - 1;
                p = q;
                while (*p && *p != ' ') p++;
                while (*p == ' ') p++;
            }
            if (n != 3) return "bad face line: " + l;
            o.tri.push_back(a);
        }
    }
    if (!ended) return "the last line is incomplete";
    return "";
}
static size_t ply_size(const std::string &t) {
    if (t == "char" || t == "uchar" || t == "int8" || t == "uint8") return 1;
    if (t == "short" || t == "ushort" || t == "int16" || t == "uint16") return 2;
    if (t == "double" || t == "float64") return 8;
    return 4;
}
static double ply_value(const std::string &t, const unsigned char *p, bool be) {
    unsigned char b[8];
    size_t n = ply_size(t);
    for (size_t i = 0; i < n; i++) b[i] = be ? p[n - 1 - i] : p[i];
    if (t == "float" || t == "float32") { float f; memcpy(&f, b, 4); return f; }
    if (n == 8) { double f; memcpy(&f, b, 8); return f; }
    uint64_t v = 0;
    memcpy(&v, b, n);
    if (t[0] == 'u') return (double)v;
    if (n == 1) return (signed char)v;
    if (n == 2) return (int16_t)v;
    return (int32_t)v;
}
static std::string read_ply(const std::string &s, Stored &o) {
    struct Pr { bool list; std::string ct, t, name; };
    struct El { std::string name; size_t n; std::vector<Pr> pr; };
    std::vector<El> els;
    size_t i = 0;
    bool bin = false, be = false, done = false;
    while (!done) {
        size_t e = s.find('\n', i);
        if (e == std::string::npos) return "the header is incomplete";
        std::string l = s.substr(i, e - i);
        i = e + 1;
        std::vector<std::string> w;
        size_t a = 0;
        while (a < l.size()) {
            size_t b = l.find(' ', a);
            if (b == std::string::npos) b = l.size();
            if (b > a) w.push_back(l.substr(a, b - a));
            a = b + 1;
        }
        if (w.empty()) continue;
        if (w[0] == "format" && w.size() > 1) {
            bin = w[1] != "ascii";
            be = w[1] == "binary_big_endian";
        } else if (w[0] == "element" && w.size() > 2) els.push_back(El{w[1], (size_t)strtoull(w[2].c_str(), nullptr, 10), {}});
        else if (w[0] == "property" && !els.empty() && w.size() > 2) {
            if (w[1] == "list" && w.size() > 4) els.back().pr.push_back(Pr{true, w[2], w[3], w[4]});
            else els.back().pr.push_back(Pr{false, "", w[1], w[2]});
        } else if (w[0] == "end_header") done = true;
    }
    auto value = [&](const std::string &t, double &v) {
        if (bin) {
            size_t n = ply_size(t);
            if (i + n > s.size()) return false;
            v = ply_value(t, (const unsigned char *)s.data() + i, be);
            i += n;
            return true;
        }
        char *q;
        const char *p = s.c_str() + i;
        v = strtod(p, &q);
        if (q == p) return false;
        i = (size_t)(q - s.c_str());
        return true;
    };
    for (auto &e : els)
        for (size_t k = 0; k < e.n; k++) {
            Vec3 p(0.0);
            for (auto &pr : e.pr) {
                double v;
                if (!pr.list) {
                    if (!value(pr.t, v)) return fmt("the data ends inside %s %zu of %zu", e.name.c_str(), k, e.n);
                    if (e.name == "vertex" && pr.name.size() == 1 && pr.name[0] >= 'x' && pr.name[0] <= 'z') {
                        p[pr.name[0] - 'x'] = v;
                        o.single = ply_size(pr.t) == 4;
                    }
                } else {
                    double n;
                    if (!value(pr.ct, n)) return fmt("the data ends inside %s %zu of %zu", e.name.c_str(), k, e.n);
                    std::array<int, 3> a;
                    for (int j = 0; j < (int)n; j++) {
                        if (!value(pr.t, v)) return fmt("the data ends inside %s %zu of %zu", e.name.c_str(), k, e.n);
                        if (j < 3) a[(size_t)j] = (int)v;
                    }
                    if (e.name == "face") {
                        if ((int)n != 3) return "a face without three corners";
                        o.tri.push_back(a);
                    }
                }
            }
            if (e.name == "vertex") o.pos.push_back(p);
        }
    if (bin && i != s.size()) return "bytes after the end of the data";
    return "";
}
static std::array<int, 3> turned(std::array<int, 3> a) {
    while (a[0] > a[1] || a[0] > a[2]) a = {a[1], a[2], a[0]};
    return a;
}
// empty when the stored file describes this mesh
static std::string file_holds(const char *path, const Mesh &m) {
    const unsigned char *d;
    size_t n;
    if (!sim::disk_get(path, &d, &n)) return "the file does not exist";
    std::string s((const char *)d, n), e;
    Stored o;
    bool obj = strstr(path, ".obj") != nullptr;
    e = obj ? read_obj(s, o) : read_ply(s, o);
    if (!e.empty()) return e;
    if (o.pos.size() != m.numVertices()) return fmt("%zu of %zu vertices stored", o.pos.size(), m.numVertices());
    for (size_t i = 0; i < o.pos.size(); i++) {
        Vec3 q = m.vertex((int)i)->pos();
        for (int k = 0; k < 3; k++) {
            double tol = std::fabs(q[k]) * (obj ? 6e-6 : 1e-7) + 1e-37;
            if (!(std::fabs(o.pos[i][k] - q[k]) <= tol) && !(std::isnan(q[k]) && std::isnan(o.pos[i][k])))
                return fmt("vertex %zu stored at another place", i);
        }
    }
    std::vector<std::array<int, 3>> a = triangles(m), b = o.tri;
    for (auto &t : a) t = turned(t);
    for (auto &t : b) t = turned(t);
    std::sort(a.begin(), a.end());
    std::sort(b.begin(), b.end());
    if (a.size() != b.size()) return fmt("%zu of %zu faces stored", b.size(), a.size());
    if (a != b) return "other faces stored";
    return "";
}

static const int errnos[] = {EIO, ENOSPC, EACCES, EDQUOT, EROFS, EMFILE, ENOENT, EBADF};
static int err_of(double a) { return errnos[(size_t)std::fabs(a) % 8]; }

// ---------------------------------------------------------------- C12
static void dirty_stack(uint64_t seed, int how) __attribute__((noinline));
static void dirty_stack(uint64_t seed, int how) {
    sim::NoLib nl;
    volatile uint64_t a[24000];
    Rng r(seed);
    for (auto &x : a) {
        uint64_t v = r.next();
        double d = 1.0 / (double)(1 + v % 17);
        uint64_t u;
        memcpy(&u, &d, 8);
        x = how == 0 ? 0 : how == 1 ? ~0ull : how == 2 ? 0xa5a5a5a5a5a5a5a5ull : how == 3 ? v : u;
    }
}
static void c12_gen(Plan &p, Rng &r) {
    gen_heap(p, r);
    if (r.chance(0.5)) gen_sched(p, r, 4);
    p.cfg["clock"] = r.range(0, 3);
    if (std::string(VARIANT) == "fast") {
        p.cfg["cap"] = 9000000000;
        p.meshes.push_back(gen_context_mesh(r));
        int n = r.range(0, 3);
        for (int i = 0; i < n; i++) p.ops.push_back(gen_mutation(r, false));
        p.op("complete", {(double)r.range(1, 3)});
        p.op(r.chance(0.5) ? "stats" : "counts", {});
        return;
    }
    p.meshes.push_back(gen_mesh(r, MF_ANY | (r.chance(0.75) ? MF_SMALL : r.chance(0.04) ? MF_BIG : 0)));
    int n = r.chance(0.1) ? r.range(8, 14) : r.range(2, 7);
    for (int i = 0; i < n; i++) {
        int k = r.range(0, 19);
        if (k < 10) p.ops.push_back(gen_mutation(r, true));
        else if (k < 18) p.ops.push_back(gen_query(r));
        else p.op(k == 18 ? "save" : "reload", {(double)r.below(2)});
    }
}
static std::vector<std::pair<size_t, std::string>> c12_marks; // where each operation's results start
static Bytes c12_program(const Plan &p, int how) {
    Bytes b;
    c12_marks.clear();
    Mesh *m = build(make_trimesh(p.meshes.empty() ? Op{} : p.meshes[0]));
    uint64_t k = 0;
    for (auto &op : p.ops) {
        dirty_stack(p.seed * 977 + p.idx * 13 + ++k, how);
        c12_marks.push_back({b.b.size(), op.name});
        if (op.name == "save" || op.name == "reload") {
            const char *path = op.iarg(0) ? "/simdisk/a.obj" : "/simdisk/a.ply";
            Called c = call([&] { m->save(path); });
            if (c.ok() && op.name == "reload" && distinguishable(*m, op.iarg(0))) c = call([&] { m->load(path); });
            const unsigned char *d;
            size_t n;
            if (sim::disk_get(path, &d, &n)) b.str(std::string((const char *)d, n));
            b.str(c.what);
        } else {
            if (!applicable(*m, op)) continue;
            Called c;
            if (!mutate(*m, op, c)) query(*m, op, b);
            else if (!c.ok()) {
                b.str(op.name + ": " + c.what);
                break;
            }
        }
        b.u64(0x5ec7);
        b.mesh(*m);
        b.u64(m->numVertices());
    }
    destroy(m);
    return b;
}
static bool c12_aborted;
static void c12_terminate(int how, const char *) {
    // a refusal ends the native build; the other memory layout must refuse as well
    if (how == (c12_aborted ? 2 : 0)) {
        sim::probe("refused");
        sim::checked();
        sim::finish_ok();
    }
}
static void c12_exec(const Plan &p) {
    sim::Config rc = p.config();
    rc.reuse = 0;
    rc.order = 0;
    rc.gap = 1;
    rc.fill = 0;
    rc.hseed = 1;
    RefResult ref = run_reference(rc, [&] { return c12_program(p, 0).b; });
    c12_aborted = ref.cls == "abort";
    if (ref.cls == "hang") {
        sim::probe("over_budget");
        return;
    }
    if (!ref.done && ref.cls != "terminate" && ref.cls != "abort") sim::violation(ref.cls.c_str(), "in the plain layout: %s", ref.msg.c_str());
    if (!ref.done) sim::g.on_terminate = c12_terminate;
    Bytes b = c12_program(p, 1 + (int)(p.c("fill", 1) % 4));
    sim::checked();
    if (!ref.done) sim::violation("layout-dependence", "refused in one memory layout and accepted in another: %s", ref.msg.c_str());
    if (b.b != ref.bytes) {
        std::string at = "building";
        size_t i = 0, from = 0;
        while (i < b.b.size() && i < ref.bytes.size() && b.b[i] == ref.bytes[i]) i++;
        for (auto &m : c12_marks)
            if (m.first <= i) at = m.second, from = m.first;
        sim::violation("layout-dependence", "the results of %s differ between two memory layouts (byte %zu of %zu/%zu)", at.c_str(), i - from, b.b.size() - from,
                       ref.bytes.size() - from);
    }
    uint64_t h = 0;
    for (auto c : b.b) h = h * 131 + c;
    sim::shape(h);
    sim::hash_in(h);
    sample(p, fmt("bytes compared=%zu", b.b.size()));
}

// ---------------------------------------------------------------- C13
static void gen_prologue(Plan &p, Rng &r, int maxops) {
    int n = r.chance(0.4) ? 0 : r.range(1, maxops);
    for (int i = 0; i < n; i++) p.ops.push_back(gen_mutation(r, false));
}
static Mesh *prologue(const Plan &p) {
    Mesh *m = build(make_trimesh(p.meshes.empty() ? Op{} : p.meshes[0]));
    for (auto &op : p.ops) {
        Called c;
        if (!applicable(*m, op)) continue;
        Snap s = snap(*m);
        mutate(*m, op, c);
        std::string v = validate(*m, true);
        if (!v.empty()) {
            sim::probe("prologue_broke_mesh");
            sim::finish_ok();
        }
    }
    return m;
}
static void no_verdict(int how, const char *) {
    // an edit before the judged part ended the process by refusing: nothing to judge here
    if (how == 0) {
        sim::probe("prologue_refused");
        sim::finish_ok();
    }
}
static void gen_transfer(Plan &p, Rng &r, double chance) {
    if (r.chance(chance))
        p.fault("transfer", {(double)(r.chance(0.3) ? 1 : r.range(1, 700)), (double)(r.chance(0.3) ? 1 : r.range(1, 700)),
                             r.chance(0.5) ? 0.0 : 0.4 * r.unit(), (double)r.below(1000000)});
}
static void apply_transfer(const Plan &p) {
    for (auto &f : p.faults)
        if (f.name == "transfer") sim::disk_transfer_limits(std::max(1, f.iarg(0, 1)), std::max(1, f.iarg(1, 1)), std::min(0.6, std::fabs(f.arg(2))), (uint64_t)f.arg(3));
}
// more vertices than sixteen bits count
static void wide_sheet(Plan &p, Rng &r) {
    p.meshes.push_back(Op{"", {12, (double)r.range(257, 262), (double)r.range(255, 262), 0, 0, 1, (double)r.range(0, 200), (double)r.below(1000)}});
    p.cfg["cap"] = 4000000000ll;
    p.cfg["slow"] = 1;
}
static void c13_gen(Plan &p, Rng &r) {
    gen_heap(p, r);
    if (r.chance(0.0002)) {
        wide_sheet(p, r);
        p.cfg["obj"] = (int64_t)r.below(2);
        if (r.chance(0.3)) p.fault("full", {(double)r.below(2000000)});
        return;
    }
    p.meshes.push_back(gen_mesh(r, MF_ANY | (r.chance(0.5) ? MF_SMALL : r.chance(0.06) ? MF_HUGE : r.chance(0.3) ? MF_BIG : 0)));
    gen_prologue(p, r, 4);
    p.cfg["obj"] = (int64_t)r.below(2);
    p.cfg["old"] = (int64_t)r.below(3);
    if (r.chance(0.03)) p.cfg["odd"] = r.range(1, 3);
    if (r.chance(0.4)) p.cfg["again"] = r.range(1, 2);
    gen_transfer(p, r, 0.4);
    double at = r.chance(0.3) ? 1 : r.chance(0.5) ? (double)r.range(1, 6) : (double)r.range(1, 400);
    switch (r.range(0, 9)) {
    case 0: break;
    case 1: p.fault("open", {1, (double)r.below(8), 0}); break;
    case 2:
    case 3: p.fault("write", {at, (double)r.below(8), (double)r.below(2)}); break;
    case 4:
    case 5: p.fault("full", {r.chance(0.3) ? (double)r.below(300) : (double)r.below(20000)}); break;
    case 6: p.fault("close", {1, (double)r.below(8), 0}); break;
    case 7: p.fault("lost", {1, (double)r.below(8), (double)r.below(1000)}); break;
    case 8: p.fault("crash", {(double)r.range(1, r.chance(0.5) ? 8 : 300), 0, 0}); break;
    default: {
        int n = r.range(2, 3);
        for (int i = 0; i < n; i++) {
            const char *k[] = {"write", "close", "lost", "open"};
            p.fault(k[r.below(4)], {(double)r.range(1, 3), (double)r.below(8), (double)r.below(2)});
        }
        if (r.chance(0.5)) p.fault("full", {(double)r.below(5000)});
    }
    }
}
static int collect_faults(const Plan &p, sim::DiskFault *df) {
    int n = 0;
    for (auto &f : p.faults) {
        int kind = f.name == "open" ? sim::F_OPEN_ERR : f.name == "write" ? sim::F_WRITE_ERR : f.name == "close" ? sim::F_CLOSE_ERR
                   : f.name == "lost" ? sim::F_LOST_DATA : f.name == "crash" ? sim::F_CRASH : f.name == "read" ? sim::F_READ_ERR : -1;
        if (kind >= 0 && n < 16) df[n++] = sim::DiskFault{kind, (uint64_t)std::max(1.0, f.arg(0, 1)), err_of(f.arg(1)), (uint64_t)std::fabs(f.arg(2))};
        if (f.name == "full") sim::disk_capacity((int64_t)std::fabs(f.arg(0)) + 64);
    }
    return n;
}
static bool hard_fault() {
    using namespace sim;
    uint64_t *f = g.res->fired;
    return f[F_OPEN_ERR] + f[F_WRITE_ERR] + f[F_DISK_FULL] + f[F_CLOSE_ERR] + f[F_LOST_DATA] + f[F_READ_ERR] > 0;
}
static struct {
    Mesh *m;
    Snap before;
    uint64_t others;
    const char *path;
    bool odd;  // a name that stands for no known format
} s13;
static bool c13_other_kept() {
    const unsigned char *d;
    size_t n;
    return sim::disk_get("/simdisk/other.ply", &d, &n) && n == 17 && !memcmp(d, "not to be touched", 17);
}
static void c13_bystanders(const char *when, bool done) {
    sim::checked();
    // an unfinished file of a failed export's own may lie around
    if (done ? sim::disk_touched_hash_except(s13.path) != s13.others : !c13_other_kept())
        sim::violation("other-file-touched", "another file was changed by an export that %s", when);
    std::string d = diff(s13.before, snap(*s13.m), D_ALL | D_PTR);
    if (!d.empty()) sim::violation("mesh-changed", "an export that %s changed the mesh: %s", when, d.c_str());
}
static void c13_terminate(int how, const char *) {
    if (how != 0) return;
    c13_bystanders("reported an error", false);
    if (!hard_fault() && !s13.odd) sim::violation("unexpected-error", "an export without any failing file operation reported an error");
    sim::probe("reported");
    sim::finish_ok();
}
static void c13_crash() {
    sim::g.on = 0;
    sim::checked();
    if (!c13_other_kept())
        sim::violation("other-file-touched", "another file was changed by an export that was cut off");
    std::string x = diff(s13.before, snap(*s13.m), D_ALL | D_PTR);
    if (!x.empty()) sim::violation("mesh-changed", "an export that was cut off changed the mesh: %s", x.c_str());
    sim::probe("cut_off");
    sim::finish_ok();
}
static void c13_exec(const Plan &p) {
    sim::g.on_terminate = no_verdict;
    Mesh *m = prologue(p);
    static const char *const odd[] = {"/simdisk/out.stl", "/simdisk/out", "/simdisk/out.ply.bak"};
    s13.odd = p.c("odd") != 0;
    const char *path = s13.odd ? odd[(p.c("odd") - 1) % 3] : p.c("obj") ? "/simdisk/out.obj" : "/simdisk/out.ply";
    // things that lie around on the disk
    sim::disk_put("/simdisk/other.ply", "not to be touched", 17);
    if (p.c("old")) {
        std::string old((size_t)(p.c("old") == 1 ? 10 : 60000), 'x');
        sim::disk_put(path, old.data(), old.size());
    }
    s13.m = m;
    s13.before = snap(*m);
    s13.path = path;
    s13.others = sim::disk_touched_hash_except(path);
    sim::DiskFault df[16];
    int n = collect_faults(p, df);
    // the old contents count as used space until the file is truncated
    sim::disk_faults(df, n);
    apply_transfer(p);
    sim::disk_set_crash_hook(c13_crash);
    sim::g.on_terminate = c13_terminate;
    Called c = call([&] { m->save(path); });
    sim::disk_set_crash_hook(nullptr);
    sim::g.on_terminate = nullptr;
    c13_bystanders(c.ok() ? "returned" : "reported an error", c.ok());
    if (s13.odd) {
        const unsigned char *d;
        size_t n;
        if (c.ok() && (!sim::disk_get(path, &d, &n) || n == 0)) sim::violation("incomplete-file", "the export to a file of unknown format returned normally but stored nothing");
        sim::probe("unknown_format");
        sim::finish_ok();
    }
    if (c.ok()) {
        std::string e = file_holds(path, *m);
        if (!e.empty()) sim::violation("incomplete-file", "the export returned normally but %s", e.c_str());
        if (hard_fault()) sim::violation("error-lost", "a file operation failed but the export returned normally");
        sim::probe("stored");
    } else {
        if (!hard_fault()) sim::violation("unexpected-error", "an export without any failing file operation reported: %s", c.what.c_str());
        sim::probe("reported");
    }
    if (p.c("again")) {
        // once more, over what the first export left, on storage that works; or in the other format
        sim::disk_faults(nullptr, 0);
        sim::disk_capacity(-1);
        const char *next = (p.c("again") == 1) == (p.c("obj") != 0) ? "/simdisk/out.obj" : "/simdisk/out.ply";
        std::string e;
        s13.path = next;
        s13.others = sim::disk_touched_hash_except(next);
        must("exporting again", [&] { m->save(next); });
        c13_bystanders("was repeated", c.ok());
        e = file_holds(next, *m);
        if (!e.empty()) sim::violation("incomplete-file", "an export after one that %s returned normally but %s", c.ok() ? "returned" : "failed", e.c_str());
        sim::probe("exported_again");
    }
    sim::shape(digest(*m) + (uint64_t)c.ok());
    sample(p, fmt("path=%s ended=%s", path, c.ok() ? "normally" : c.what.c_str()));
    destroy(m);
}

// ---------------------------------------------------------------- C14
static void c14_gen(Plan &p, Rng &r) {
    gen_heap(p, r);
    p.meshes.push_back(gen_mesh(r, MF_ANY | (r.chance(0.8) ? MF_SMALL : 0)));
    p.cfg["style"] = r.chance(0.15) ? -1 : r.range(0, NSTYLE - 1);  // -1: written by the library and cut off by a crash
    p.cfg["used"] = (int64_t)r.below(2);
    gen_transfer(p, r, 0.25);
    if (p.cfg["style"] == -1) {
        p.cfg["obj"] = (int64_t)r.below(2);
        p.fault("crash", {(double)r.range(1, r.chance(0.5) ? 8 : 400), 0, 0});
        return;
    }
    auto any = [&] { return (double)r.below(1u << 30); };
    int what = r.range(0, 16), n = r.chance(0.7) ? 1 : r.range(2, 4);
    for (int i = 0; i < n; i++) {
        switch (i ? r.range(2, 16) : what) {
        case 0: p.fault("missing", {}); break;
        case 1: p.fault("open", {1, (double)r.below(8), 0}); break;
        case 2:
        case 3: p.fault("truncate", {any(), (double)r.below(3)}); break;
        case 4:
        case 5: p.fault("flip", {any(), (double)r.below(8), (double)r.below(3)}); break;
        case 6: p.fault("byte", {any(), (double)r.below(256), (double)r.below(3)}); break;
        case 7:
        case 8: p.fault("read", {(double)(r.chance(0.4) ? r.range(1, 3) : r.range(1, 60)), (double)r.below(8), (double)r.below(2)}); break;
        case 9: p.fault("index", {any(), (double)r.below(6)}); break;
        case 10: p.fault("count", {(double)r.below(2), (double)r.below(9)}); break;
        case 11: p.fault("cut", {any(), (double)r.range(1, 60)}); break;
        case 12: p.fault("type", {(double)r.below(2), (double)r.below(8)}); break;
        case 13: p.fault("zero", {any(), (double)(r.chance(0.5) ? r.range(1, 40) : 512)}); break;
        case 14: p.fault("list", {(double)r.below(16)}); break;
        case 15: p.fault("pinch", {any(), (double)r.below(3), (double)r.range(1, 6)}); break;
        default: p.fault("again", {any(), (double)(r.chance(0.5) ? r.range(1, 40) : 512)}); break;
        }
    }
    if (p.c("style") != -1 && what >= 7 && what <= 8 && r.chance(0.5)) gen_transfer(p, r, 1.0);
}
// position of a fault inside the stored bytes: anywhere, in the header, in the first bytes after it
static size_t spot(const FileSpec &f, double a, double where) {
    uint64_t x = (uint64_t)std::fabs(a);
    size_t n = f.bytes.size(), h = f.header ? f.header : n / 4;
    if (n == 0) return 0;
    if ((int)where == 1) return (size_t)(x % (h + 1)) % n;
    if ((int)where == 2) return (h + (size_t)(x % 64)) % n;
    return (size_t)(x % n);
}
// empty mesh is fine
static void c14_judge(Mesh *m, const Called &c, bool must_report, const char *why) {
    sim::checked();
    if (c.ok()) {
        std::string v = validate(*m, false, true);
        if (!v.empty()) sim::violation("invalid-mesh", "a load that returned left an invalid mesh: %s", v.c_str());
        if (must_report) sim::violation("error-lost", "a load returned normally although %s", why);
        sim::probe("loaded");
    } else
        sim::probe("reported");
}
static bool c14_crashed;
static bool c14_obj;
static void c14_terminate(int how, const char *) {
    // native builds report by printing and stopping; a failed assertion is such a report as well
    if (how == 0 || how == 2) {
        sim::checked();
        sim::probe("reported");
        sim::finish_ok();
    }
}
static void c14_after_crash() {
    // the machine comes up again and reads what reached the disk
    sim::g.on = 0;
    sim::disk_faults(nullptr, 0);
    sim::disk_transfer_limits(0, 0, 0, 1);
    sim::disk_set_crash_hook(nullptr);
    sim::g.on_terminate = c14_terminate;
    c14_crashed = true;
    const char *path = c14_obj ? "/simdisk/in.obj" : "/simdisk/in.ply";
    Mesh *m = nullptr;
    must("making an empty mesh", [&] { m = new Mesh(); });
    Called c = call([&] { m->load(path); });
    c14_judge(m, c, false, "");
    sim::probe("after_crash");
    sim::finish_ok();
}
static void c14_exec(const Plan &p) {
    TriMesh t = make_trimesh(p.meshes.empty() ? Op{} : p.meshes[0]);
    int style = (int)p.c("style", 0);
    if (style == -1) {
        Mesh *m = build(t);
        c14_obj = p.c("obj") != 0;
        sim::DiskFault df[16];
        int n = collect_faults(p, df);
        sim::disk_faults(df, n);
        apply_transfer(p);
        sim::disk_set_crash_hook(c14_after_crash);
        must("saving", [&] { m->save(c14_obj ? "/simdisk/in.obj" : "/simdisk/in.ply"); });
        // no crash point reached: the complete file
        c14_after_crash();
    }
    bool missing = false, damaged = false, shortened = false;
    TriMesh stored = t;
    for (auto &x : p.faults)
        if (x.name == "pinch") {
            // corner numbers overwritten by their neighbours: some faces, with the last ones or on their own
            size_t nf = stored.tri.size() / 3;
            for (int k = 0; k < x.iarg(2, 1); k++) {
                size_t q = x.iarg(1) == 0 ? nf - 1 - (size_t)k % nf : (size_t)((uint64_t)std::fabs(x.arg(0)) * (uint64_t)(2 * k + 1) % nf);
                stored.tri[3 * q + 1] = stored.tri[3 * q];
                if (x.iarg(1) == 2) stored.tri[3 * q + 2] = stored.tri[3 * q];
            }
            damaged = true;
            sim::fired(sim::F_FLIPPED);
        }
    FileSpec f = make_file(stored, style);
    size_t whole = f.bytes.size();
    for (auto &x : p.faults) {
        if (x.name == "missing") missing = true;
        if (f.bytes.empty()) continue;
        size_t at = spot(f, x.arg(0), x.name == "flip" || x.name == "byte" ? x.arg(2) : x.arg(1));
        if (x.name == "truncate") {
            f.bytes.resize(at);
            shortened = true;
            sim::fired(sim::F_TRUNCATED);
        } else if (x.name == "flip") {
            f.bytes[at] = (char)(f.bytes[at] ^ (1 << (x.iarg(1) & 7)));
            damaged = true;
            sim::fired(sim::F_FLIPPED);
        } else if (x.name == "byte") {
            f.bytes[at] = (char)x.iarg(1);
            damaged = true;
            sim::fired(sim::F_FLIPPED);
        } else if (x.name == "cut") {
            at = spot(f, x.arg(0), 0);
            f.bytes.erase(at, (size_t)x.iarg(1, 1));
            damaged = true;
            sim::fired(sim::F_FLIPPED);
        } else if (x.name == "zero" || x.name == "again") {
            // a block of the medium reads as zeros, or as a copy of the block before it
            at = spot(f, x.arg(0), 0);
            size_t len = (size_t)std::max(1, x.iarg(1, 1)), a0 = len == 512 ? at / 512 * 512 : at;
            for (size_t k = a0; k < a0 + len && k < f.bytes.size(); k++) f.bytes[k] = x.name == "zero" || k < len ? 0 : f.bytes[k - len];
            damaged = true;
            sim::fired(sim::F_FLIPPED);
        } else if (x.name == "list" && f.ext == ".ply") {
            // the header calls single numbers lists and lists single numbers: bits choose x, y, z and the corners
            size_t end = f.bytes.find("end_header"), q = 0;
            if (end == std::string::npos) continue;
            std::string head = f.bytes.substr(0, end), out;
            while (q < head.size()) {
                size_t e = head.find('\n', q);
                if (e == std::string::npos) e = head.size() - 1;
                std::string line = head.substr(q, e + 1 - q), name = line.substr(line.rfind(' ') + 1);
                while (!name.empty() && name.back() <= ' ') name.pop_back();
                int bit = name == "x" ? 1 : name == "y" ? 2 : name == "z" ? 4 : 8;
                if (line.compare(0, 9, "property ") == 0 && (x.iarg(0) & bit)) {
                    if (line.compare(0, 14, "property list ") == 0) line = "property " + line.substr(line.find(' ', 14) + 1);
                    else line = "property list uchar " + line.substr(9);
                }
                out += line;
                q = e + 1;
            }
            f.bytes = out + f.bytes.substr(end);
            damaged = true;
            sim::fired(sim::F_FLIPPED);
        } else if (x.name == "type" && f.ext == ".ply") {
            // the header names another type than the one the numbers were stored with
            const char *types[] = {"char", "uchar", "short", "ushort", "int", "uint", "float", "double"};
            size_t end = f.bytes.find("end_header"), q = 0;
            if (end == std::string::npos) continue;
            std::string head = f.bytes.substr(0, end), out;
            while (q < head.size()) {
                size_t e = head.find('\n', q);
                if (e == std::string::npos) e = head.size() - 1;
                std::string line = head.substr(q, e + 1 - q);
                bool list = line.compare(0, 14, "property list ") == 0, prop = line.compare(0, 9, "property ") == 0;
                if (prop && list == (x.iarg(0) == 1)) {
                    size_t a = list ? line.find(' ', 14) + 1 : 9, b = line.find(' ', a);
                    if (a != 0 && b != std::string::npos) line.replace(a, b - a, types[x.iarg(1) & 7]);
                }
                out += line;
                q = e + 1;
            }
            f.bytes = out + f.bytes.substr(end);
            damaged = true;
            sim::fired(sim::F_FLIPPED);
        } else if (x.name == "index" && f.binary && f.bytes.size() == whole && style != 8) {
            // one stored corner number
            size_t nf = t.tri.size() / 3, is = style == 5 ? 2 : 4, cs = style == 6 ? 4 : 1, rec = cs + 3 * is;
            size_t start = style == 9 ? f.header : whole - nf * rec;
            size_t q = start + ((uint64_t)std::fabs(x.arg(0)) % nf) * rec + cs + is * ((uint64_t)std::fabs(x.arg(0)) / 7 % 3);
            uint32_t vals[] = {(uint32_t)t.pos.size(), 0xffffffffu, 0x7fffffffu, 0, (uint32_t)t.pos.size() * 2 + 5, 0x55555556u};
            uint32_t v = vals[x.iarg(1) % 6];
            if (style == 2) for (size_t k = 0; k < 4; k++) f.bytes[q + k] = (char)(v >> (24 - 8 * k));
            else memcpy(&f.bytes[q], &v, is);
            damaged = true;
            sim::fired(sim::F_FLIPPED);
        } else if (x.name == "index" && !f.binary) {
            // replace a run of digits somewhere in the last half
            size_t q = f.bytes.size() / 2 + at / 2;
            while (q < f.bytes.size() && !isdigit((unsigned char)f.bytes[q])) q++;
            size_t e = q;
            while (e < f.bytes.size() && isdigit((unsigned char)f.bytes[e])) e++;
            const char *vals[] = {"0", "99999999", "-1", "4294967296", "-99999", "1"};
            if (q < e) f.bytes.replace(q, e - q, vals[x.iarg(1) % 6]);
            damaged = true;
            sim::fired(sim::F_FLIPPED);
        } else if (x.name == "count" && f.ext == ".ply") {
            const char *key = x.iarg(0) ? "element face " : "element vertex ";
            size_t q = f.bytes.find(key);
            if (q == std::string::npos) continue;
            q += strlen(key);
            size_t e = q;
            while (e < f.bytes.size() && isdigit((unsigned char)f.bytes[e])) e++;
            uint64_t n = strtoull(f.bytes.substr(q, e - q).c_str(), nullptr, 10);
            uint64_t vals[] = {0, n ? n - 1 : 0, n + 1, 2 * n, 100000, 1ull << 31, (1ull << 32) + n, 1ull << 63, ~0ull / 12 + 2};
            f.bytes.replace(q, e - q, std::to_string(vals[x.iarg(1) % 9]));
            damaged = true;
            sim::fired(sim::F_FLIPPED);
        }
    }
    std::string path = "/simdisk/in" + f.ext;
    sim::DiskFault df[16];
    int n = collect_faults(p, df);
    Mesh *m = nullptr;
    if (p.c("used")) m = build(t);
    else must("making an empty mesh", [&] { m = new Mesh(); });
    if (!missing) sim::disk_put(path.c_str(), f.bytes.data(), f.bytes.size());
    sim::disk_faults(df, n);
    apply_transfer(p);
    sim::g.on_terminate = c14_terminate;
    bool cut = shortened && !damaged && f.binary && f.bytes.size() >= f.header && f.bytes.size() < whole;
    Called c;
    // whether a report is due is known only after the reads: the terminate hook accepts reports in any case
    c = call([&] { m->load(path); });
    sim::g.on_terminate = nullptr;
    using namespace sim;
    uint64_t *fr = g.res->fired;
    const char *why = missing ? "the file does not exist" : fr[F_OPEN_ERR] ? "the file could not be opened"
                      : fr[F_READ_ERR] ? "reading failed" : "the file is shorter than its header says";
    c14_judge(m, c, missing || fr[F_OPEN_ERR] || fr[F_READ_ERR] || cut, why);
    bool undamaged = !missing && !damaged && !shortened && !fr[F_OPEN_ERR] && !fr[F_READ_ERR];
    if (undamaged && !c.ok()) sim::probe("undamaged_refused");
    sim::shape(c.ok() ? digest(*m) : 7 + f.bytes.size());
    sample(p, fmt("file=%s style=%d ended=%s", path.c_str(), style, c.ok() ? "normally" : c.what.c_str()));
    // whatever happened, the object can be filled again
    Mesh *fresh = build(t);
    sim::disk_faults(nullptr, 0);
    must("building after a load", [&] { m->construct(t.pos, t.tri); });
    std::string d = diff(snap(*fresh), snap(*m), D_ALL);
    if (!d.empty()) sim::violation("left-behind", "a mesh built after a load differs from a fresh one: %s", d.c_str());
    destroy(fresh);
    destroy(m);
}

// ---------------------------------------------------------------- C15
// how a position looks in the file
static std::array<double, 3> stored_pos(const Vec3 &v, bool obj) {
    std::array<double, 3> a;
    for (int k = 0; k < 3; k++) {
        if (obj) {
            char t[64];
            snprintf(t, sizeof t, "%.6g", v[k]);
            a[(size_t)k] = (double)(float)strtod(t, nullptr);
        } else
            a[(size_t)k] = (double)(float)v[k];
        if (a[(size_t)k] == 0.0) a[(size_t)k] = 0.0;
    }
    return a;
}
static bool distinguishable(const Mesh &m, int how) {
    std::set<std::array<double, 3>> u;
    for (int i = 0; i < (int)m.numVertices(); i++)
        if (!u.insert(stored_pos(m.vertex(i)->pos(), how != 0)).second) return false;
    return true;
}
static void c15_gen(Plan &p, Rng &r) {
    gen_heap(p, r);
    if (r.chance(0.0002)) {
        wide_sheet(p, r);
        p.cfg["obj"] = (int64_t)r.below(2);
        return;
    }
    p.meshes.push_back(gen_mesh(r, MF_ANY | (r.chance(0.5) ? MF_SMALL : r.chance(0.06) ? MF_HUGE : r.chance(0.3) ? MF_BIG : 0)));
    gen_prologue(p, r, 12);
    p.cfg["obj"] = (int64_t)r.below(2);
    gen_transfer(p, r, 0.95);
    if (r.chance(0.3)) p.cfg["scale"] = r.range(-6, 6);
}
typedef std::array<std::array<double, 3>, 3> PTri;
static PTri turned(PTri a) {
    while (a[0] > a[1] || a[0] > a[2]) a = {a[1], a[2], a[0]};
    return a;
}
static std::vector<PTri> by_position(const Mesh &m, const std::function<std::array<double, 3>(const Vec3 &)> &f) {
    std::vector<PTri> r;
    for (auto &t : triangles(m)) {
        PTri q;
        for (size_t k = 0; k < 3; k++) q[k] = f(m.vertex(t[k])->pos());
        r.push_back(turned(q));
    }
    std::sort(r.begin(), r.end());
    return r;
}
static void c15_exec(const Plan &p) {
    sim::g.on_terminate = no_verdict;
    Mesh *m = prologue(p);
    sim::g.on_terminate = nullptr;
    bool obj = p.c("obj") != 0;
    if (p.c("scale")) {
        double s = std::pow(10.0, (double)p.c("scale"));
        for (int i = 0; i < (int)m->numVertices(); i++) m->vertex(i)->setPos(m->vertex(i)->pos() * s);
    }
    if (!distinguishable(*m, obj)) {
        sim::probe("indistinguishable_vertices");
        sim::finish_ok();
    }
    const char *ext = obj ? ".obj" : ".ply";
    std::string f[3] = {std::string("/simdisk/a") + ext, std::string("/simdisk/b") + ext, std::string("/simdisk/c") + ext};
    apply_transfer(p);
    must("saving", [&] { m->save(f[0]); });
    Mesh *m1 = nullptr, *m2 = nullptr;
    must("loading", [&] { m1 = new Mesh(f[0]); });
    sim::checked();
    std::string v = validate(*m1, true);
    if (!v.empty()) sim::violation("invalid-mesh", "the loaded mesh is invalid: %s", v.c_str());
    if (m1->numVertices() != m->numVertices())
        sim::violation("not-restored", "%zu vertices saved, %zu loaded", m->numVertices(), m1->numVertices());
    auto id = [](const Vec3 &x) { return std::array<double, 3>{x[0] + 0.0, x[1] + 0.0, x[2] + 0.0}; };
    std::vector<PTri> a = by_position(*m, [&](const Vec3 &x) { return stored_pos(x, obj); }), b = by_position(*m1, id);
    if (a.size() != b.size()) sim::violation("not-restored", "%zu faces saved, %zu loaded", a.size(), b.size());
    if (a != b) {
        // text formats may keep more digits: then match vertices by nearness
        bool near = false;
        if (obj) {
            std::vector<PTri> c = by_position(*m, id);
            near = c.size() == b.size();
            for (size_t i = 0; near && i < c.size(); i++)
                for (size_t k = 0; k < 9; k++)
                    if (!(std::fabs(c[i][k / 3][k % 3] - b[i][k / 3][k % 3]) <= 6e-6 * std::fabs(c[i][k / 3][k % 3]))) near = false;
        }
        if (!near) sim::violation("not-restored", "the loaded faces or positions differ from the saved ones");
    }
    if (!(topology(*m) == topology(*m1))) sim::violation("not-restored", "the loaded mesh has another topology");
    must("saving", [&] { m1->save(f[1]); });
    must("loading", [&] { m2 = new Mesh(f[1]); });
    must("saving", [&] { m2->save(f[2]); });
    std::string d = diff(snap(*m1), snap(*m2), D_POS);
    if (!d.empty()) sim::violation("not-restored", "saving and loading a loaded mesh changes it: %s", d.c_str());
    const unsigned char *x, *y;
    size_t nx, ny;
    if (!sim::disk_get(f[1].c_str(), &x, &nx) || !sim::disk_get(f[2].c_str(), &y, &ny)) sim::violation("incomplete-file", "no file written");
    if (nx != ny || memcmp(x, y, nx)) sim::violation("contents-differ", "a loaded mesh saved again gives other file contents");
    sim::checked(3);
    sim::shape(digest(*m1));
    sample(p, fmt("format=%s vertices=%zu reads/writes=%llu", ext, m->numVertices(), (unsigned long long)sim::g.res->ioops));
    destroy(m2);
    destroy(m1);
    destroy(m);
}

// ---------------------------------------------------------------- C16
static void c16_gen(Plan &p, Rng &r) {
    gen_heap(p, r);
    if (r.chance(0.3)) gen_sched(p, r, 3);
    int nm = r.range(2, 4);
    for (int i = 0; i < nm; i++) p.meshes.push_back(gen_mesh(r, MF_ANY | (r.chance(0.8) ? MF_SMALL : 0)));
    int n = r.range(3, 14);
    for (int i = 0; i < n; i++) {
        double k = (double)r.below(4), x = (double)r.below(1u << 30);
        switch (r.range(0, 18)) {
        case 0:
        case 1: p.op("build", {k}); break;
        case 2: p.op("load", {k, (double)r.below(NSTYLE)}); break;
        case 3: p.op("badload", {k, (double)r.below(NSTYLE), (double)r.below(4), x}); break;
        case 4: p.op("oombuild", {k, x}); break;
        case 5: p.op("oomload", {k, (double)r.below(NSTYLE), x}); break;
        case 6: p.op("badbuild", {k, (double)r.below(8), x}); break;
        case 18: p.op("badtree", {k, (double)r.below(5), x}); break;
        case 7:
        case 8: p.op("clone", {x, (double)r.below(3)}); break;
        case 9: p.op("tree", {k}); break;
        case 10: p.op("oomtree", {k, x}); break;
        case 11: p.op("ask", {3 * r.unit() - 1.5, 3 * r.unit() - 1.5, 3 * r.unit() - 1.5}); break;
        default: p.ops.push_back(gen_mutation(r, r.chance(0.3)));
        }
    }
    p.op("build", {(double)r.below(4)});
    p.op("tree", {(double)r.below(4)});
}
static void same_as_fresh(Mesh *m, const std::function<void(Mesh *)> &make, const char *how) {
    Mesh *f = nullptr;
    must("making an empty mesh", [&] { f = new Mesh(); });
    make(f);
    sim::checked();
    std::string d = diff(snap(*f), snap(*m), D_ALL);
    if (!d.empty()) sim::violation("history-dependence", "%s into a used mesh differs from a fresh one: %s", how, d.c_str());
    std::string v = validate(*m, true, true);
    if (!v.empty()) sim::violation("invalid-mesh", "%s gave an invalid mesh: %s", how, v.c_str());
    destroy(f);
}
// a triangle without a neighbour, or with a corner twice: the library cannot tell it from a hole
static bool stands_alone(const TriMesh &t) {
    std::set<std::pair<uint32_t, uint32_t>> edges;
    for (size_t i = 0; i + 2 < t.tri.size(); i += 3)
        for (int j = 0; j < 3; j++) edges.insert({t.tri[i + j], t.tri[i + (j + 1) % 3]});
    for (size_t i = 0; i + 2 < t.tri.size(); i += 3) {
        bool joined = false;
        for (int j = 0; j < 3; j++) {
            uint32_t a = t.tri[i + j], b = t.tri[i + (j + 1) % 3];
            if (a == b) return true;
            joined = joined || edges.count({b, a});
        }
        if (!joined) return true;
    }
    return false;
}
static void c16_exec(const Plan &p) {
    std::vector<TriMesh> ts;
    for (auto &s : p.meshes) ts.push_back(make_trimesh(s));
    if (ts.empty()) ts.push_back(make_trimesh(Op{}));
    Mesh *m = build(ts[0]);
    BVH *tree = nullptr;
    const TriMesh *in_tree = nullptr;
    bool usable = true;      // the mesh holds a complete mesh
    bool empty_tree = true;  // the search structure is known to hold nothing
    must("making an empty search structure", [&] { tree = new BVH(); });
    for (auto &op : p.ops) {
        const std::string &n = op.name;
        const TriMesh &t = ts[(size_t)std::fabs(op.arg(0)) % ts.size()];
        if (n == "build") {
            must("building", [&] { m->construct(t.pos, t.tri); });
            same_as_fresh(m, [&](Mesh *f) { must("building", [&] { f->construct(t.pos, t.tri); }); }, "building");
            usable = true;
            sim::probe("rebuilt");
        } else if (n == "load") {
            FileSpec f = make_file(t, op.iarg(1));
            std::string path = "/simdisk/in" + f.ext;
            sim::disk_put(path.c_str(), f.bytes.data(), f.bytes.size());
            Called c = call([&] { m->load(path); });
            usable = c.ok();
            if (c.ok()) {
                same_as_fresh(m, [&](Mesh *x) { must("loading", [&] { x->load(path); }); }, "loading");
                sim::probe("reloaded");
            } else {
                Mesh *x = nullptr;
                must("making an empty mesh", [&] { x = new Mesh(); });
                Called c2 = call([&] { x->load(path); });
                sim::checked();
                if (c2.ok()) sim::violation("history-dependence", "a fresh mesh loads a file a used one refuses: %s", c.what.c_str());
                destroy(x);
            }
        } else if (n == "badload") {
            FileSpec f = make_file(t, op.iarg(1));
            std::string path = "/simdisk/bad" + f.ext;
            uint64_t x = (uint64_t)op.arg(3);
            sim::DiskFault df = {sim::F_READ_ERR, 1 + x % 3, EIO, 1};
            int kind = op.iarg(2) % 4;
            if (kind == 0) {
                f.bytes.resize(f.bytes.empty() ? 0 : x % f.bytes.size());
                sim::fired(sim::F_TRUNCATED);
            }
            if (kind == 1 && !f.bytes.empty()) {
                f.bytes[x % f.bytes.size()] ^= (char)(1 + x % 255);
                sim::fired(sim::F_FLIPPED);
            }
            if (kind == 3) path = "/simdisk/none" + f.ext;
            else sim::disk_put(path.c_str(), f.bytes.data(), f.bytes.size());
            sim::disk_faults(&df, kind == 2 ? 1 : 0);
            Called c = call([&] { m->load(path); });
            sim::disk_faults(nullptr, 0);
            usable = false;
            sim::probe(c.ok() ? "badload_returned" : "badload_reported");
        } else if (n == "oombuild" || n == "oomload") {
            FileSpec f;
            std::string path;
            if (n == "oomload") {
                f = make_file(t, op.iarg(1));
                path = "/simdisk/in" + f.ext;
                sim::disk_put(path.c_str(), f.bytes.data(), f.bytes.size());
            }
            uint64_t x = (uint64_t)op.arg(n == "oomload" ? 2 : 1);
            sim::arm_alloc_fault(1 + x % (20 + 16 * t.tri.size()), (x >> 20) & 1);
            Called c = call([&] {
                if (n == "oomload") m->load(path);
                else m->construct(t.pos, t.tri);
            });
            sim::disarm_alloc_fault();
            usable = false;
            sim::probe(c.ok() ? "oom_returned" : "oom_reported");
        } else if (n == "badbuild") {
            TriMesh b = t;
            uint64_t x = (uint64_t)op.arg(2);
            size_t nf = b.tri.size() / 3, k = 3 * (x % nf);
            int kind = op.iarg(1) % 8;
            bool malformed = kind == 4 || kind == 5;
            if (kind == 4) b.tri[x % b.tri.size()] = (uint32_t)(b.pos.size() + (x >> 9) % 3 * 1000000007u);
            if (kind == 5) b.tri.resize(b.tri.size() - 1 - (x >> 7) % 2);
            if (kind == 6) b.tri.clear();
            if (kind == 7) b.tri.clear(), b.pos.clear();
            if (kind == 0) b.tri[k + 1] = b.tri[k], b.tri[b.tri.size() - 1] = b.tri[b.tri.size() - 2];
            if (kind == 1) std::swap(b.tri[k + 1], b.tri[k + 2]);
            if (kind == 2) b.pos[x % b.pos.size()] = b.pos[(x / 7) % b.pos.size()];
            if (kind == 3) b.tri.insert(b.tri.end(), b.tri.begin() + (long)k, b.tri.begin() + (long)k + 3);
            Called c = call([&] { m->construct(b.pos, b.tri); });
            usable = c.ok() && !b.tri.empty() && !stands_alone(b);
            if (malformed && c.ok()) sim::violation("accepted-malformed", "a list of triangles with %s was accepted", kind == 4 ? "a corner that does not exist" : "an unfinished triangle");
            if (c.ok()) same_as_fresh(m, [&](Mesh *f) { must("building", [&] { f->construct(b.pos, b.tri); }); }, "building");
            sim::probe(c.ok() ? "badbuild_returned" : "badbuild_reported");
        } else if (n == "clone") {
            if (!usable) continue;
            bool dist = true;
            std::set<std::array<double, 3>> u;
            for (int i = 0; i < (int)m->numVertices(); i++) {
                Vec3 q = m->vertex(i)->pos();
                if (!u.insert({q[0] + 0.0, q[1] + 0.0, q[2] + 0.0}).second) dist = false;
            }
            if (!dist) {
                sim::probe("clone_indistinguishable");
                continue;
            }
            Snap before = snap(*m);
            Mesh *k = nullptr;
            must("cloning", [&] { k = new Mesh(m->clone()); });
            sim::checked();
            std::string d = diff(before, snap(*m), D_ALL | D_PTR);
            if (!d.empty()) sim::violation("clone-shows", "cloning changed the original: %s", d.c_str());
            d = validate(*k, true);
            if (!d.empty()) sim::violation("invalid-mesh", "the clone is invalid: %s", d.c_str());
            auto id = [](const Vec3 &x) { return std::array<double, 3>{x[0] + 0.0, x[1] + 0.0, x[2] + 0.0}; };
            if (by_position(*m, id) != by_position(*k, id) || m->numVertices() != k->numVertices() || !(topology(*m) == topology(*k)))
                sim::violation("clone-differs", "the clone differs from the original");
            // change one of the two, the other stays as it was
            uint64_t x = (uint64_t)op.arg(0);
            Mesh *a = x & 1 ? m : k, *o = x & 1 ? k : m;
            Snap s = snap(*o);
            Op edits[] = {Op{"move", {(double)(x >> 1), 0.1, 0.2, 0.3}}, Op{"split", {(double)(x >> 3)}}, Op{"lap", {0.5, 0, 1}}};
            Called c;
            mutate(*a, edits[op.iarg(1) % 3], c);
            d = diff(s, snap(*o), D_ALL | D_PTR);
            if (!d.empty()) sim::violation("clone-shows", "a change to %s shows in the other: %s", x & 1 ? "the original" : "the clone", d.c_str());
            if (x & 2) {
                // go on with the clone
                destroy(m);
                m = k;
            } else
                destroy(k);
            d = validate(*m, true);
            if (!d.empty()) sim::violation("invalid-mesh", "after the other of a cloned pair is gone: %s", d.c_str());
            sim::probe("cloned");
        } else if (n == "tree" || n == "oomtree") {
            if (n == "oomtree") {
                uint64_t x = (uint64_t)op.arg(1);
                sim::arm_alloc_fault(1 + x % (4 + 3 * t.tri.size()), (x >> 20) & 1);
                Called c = call([&] { tree->construct(t.pos, t.tri); });
                sim::disarm_alloc_fault();
                in_tree = c.ok() ? &t : nullptr;
                empty_tree = false;
                sim::probe(c.ok() ? "oomtree_returned" : "oomtree_reported");
            } else {
                must("building a search structure", [&] { tree->construct(t.pos, t.tri); });
                in_tree = &t;
                empty_tree = false;
            }
            if (!in_tree) continue;
            BVH *f = nullptr;
            must("building a search structure", [&] { f = new BVH(t.pos, t.tri); });
            Rng r(p.seed + p.idx);
            for (int i = 0; i < 12; i++) {
                Vec3 q(4 * r.unit() - 2, 4 * r.unit() - 2, 4 * r.unit() - 2), x(0.0), y(0.0);
                double dx = 0, dy = 0;
                must("asking", [&] { x = tree->closestPoint(q); dx = tree->distance(q); });
                must("asking", [&] { y = f->closestPoint(q); dy = f->distance(q); });
                sim::checked();
                if (!(x == y) || dx != dy) sim::violation("history-dependence", "a rebuilt search structure answers differently from a fresh one");
            }
            must("destroying", [&] { delete f; });
            sim::probe("tree_rebuilt");
        } else if (n == "badtree") {
            TriMesh b = t;
            uint64_t x = (uint64_t)op.arg(2);
            int kind = op.iarg(1) % 5;
            if (kind == 0) b.tri[x % b.tri.size()] = (uint32_t)(b.pos.size() + (x >> 9) % 3 * 1000000007u);
            if (kind == 1) b.tri.resize(b.tri.size() - 1 - (x >> 7) % 2);
            if (kind == 2) b.tri.clear();
            if (kind >= 3) b.pos[b.tri[x % b.tri.size()]][(int)(x >> 8) % 3] = kind == 3 ? (x & 1 ? -1 : 1) * INFINITY : NAN;
            Called c = call([&] { tree->construct(b.pos, b.tri); });
            sim::checked();
            if (kind < 2 && c.ok()) sim::violation("accepted-malformed", "a list of triangles with %s was accepted", kind == 0 ? "a corner that does not exist" : "an unfinished triangle");
            in_tree = nullptr;
            empty_tree = kind < 3;
            if (kind >= 3) call([&] { tree->closestPoint(Vec3(0.1, 0.2, 0.3)); });
            sim::probe(c.ok() ? "badtree_returned" : "badtree_reported");
        } else if (n == "ask") {
            if (!in_tree) {
                // nothing to search is said so
                Called c = call([&] { tree->closestPoint(Vec3(op.arg(0), op.arg(1), op.arg(2))); });
                sim::checked();
                if (!empty_tree) continue;  // left behind by a failed build: only memory is judged
                if (c.ok()) sim::violation("history-dependence", "a search structure that holds nothing gave an answer");
                sim::probe("empty_tree_refused");
                continue;
            }
            Vec3 x(0.0);
            must("asking", [&] { x = tree->closestPoint(Vec3(op.arg(0), op.arg(1), op.arg(2))); });
            sim::hash_in((uint64_t)(x[0] * 1e6));
        } else {
            if (!usable || !applicable(*m, op)) continue;
            Called c;
            mutate(*m, op, c);
            std::string v = validate(*m, true);
            if (!c.ok() || !v.empty()) usable = false;
        }
    }
    sim::shape(usable ? digest(*m) : 3);
    sample(p, fmt("operations=%zu", p.ops.size()));
    must("destroying", [&] { delete tree; });
    destroy(m);
}

// ---------------------------------------------------------------- C17
static void c17_gen(Plan &p, Rng &r) {
    gen_heap(p, r);
    p.cfg["clock"] = r.range(1, 7);
    if (std::string(VARIANT) == "fast") {
        p.cfg["cap"] = 9000000000;
        p.meshes.push_back(gen_context_mesh(r));
        if (r.chance(0.5)) gen_sched(p, r, 3);
        p.op("complete", {(double)r.range(0, 3)});
        return;
    }
    int what = r.range(0, 4);
    if (what == 0) {
        p.meshes.push_back(gen_mesh(r, MF_ANY | (r.chance(0.85) ? MF_SMALL : r.chance(0.2) ? MF_BIG : 0)));
        gen_sched(p, r, 3);
        p.op("simplify", {0.1 + 0.9 * r.unit(), (double)r.range(1, 3), 1});
        if (r.chance(0.3)) p.op("simplify", {0.1 + 0.9 * r.unit(), 1, 1});
    } else if (what == 1) {
        p.meshes.push_back(gen_mesh(r, MF_ANY | MF_SMALL));
        gen_sched(p, r, 3);
        p.op("remesh", {0.5 + 0.4 * r.unit(), 1.1 + 0.4 * r.unit(), r.chance(0.7) ? 0.0 : r.unit(), (double)(r.chance(0.8) ? 1 : 2), 1});
    } else {
        static const int tot[] = {0, 1, 2, 3, 7, 39, 40, 41, 100, 999, 1000, 1001, 5000, 53687091, 53687092, 100000000, 2147483647};
        int total = r.chance(0.5) ? tot[r.below(17)] : r.chance(0.5) ? r.range(0, 300) : (int)r.below(2147483647);
        p.op("bar", {(double)total, (double)r.below(3)});
        int n = r.range(1, 60);
        for (int i = 0; i < n; i++) {
            double s = r.chance(0.6) ? 1 : r.chance(0.3) ? 0 : r.chance(0.3) ? (double)r.below(2147483647) : (double)r.range(1, std::max(1, total / 4));
            p.op("step", {s});
        }
        p.op(r.chance(0.8) ? "finish" : "step", {1});
    }
}
// progress lines: [ 12%]|====>   | 3/25 [00:00<00:01, 5it/s]
static std::string read_progress(const std::string &out, std::vector<std::array<long, 3>> &lines, std::string &rest) {
    size_t i = 0;
    rest.clear();
    while (i < out.size()) {
        size_t e = out.find('\r', i);
        std::string seg = out.substr(i, e == std::string::npos ? std::string::npos : e - i);
        i = e == std::string::npos ? out.size() : e + 1;
        size_t a = seg.find("%]|");
        if (a == std::string::npos) {
            rest += seg;
            continue;
        }
        size_t b0 = seg.rfind('[', a);
        size_t bar = a + 3, bare = seg.find('|', bar);
        if (b0 == std::string::npos || bare == std::string::npos) return "unreadable progress: " + seg;
        long pc = strtol(seg.c_str() + b0 + 1, nullptr, 10);
        long k = 0, n = 0;
        if (sscanf(seg.c_str() + bare + 1, " %ld/%ld", &k, &n) != 2) return "unreadable progress: " + seg;
        lines.push_back({pc, k, n});
        std::string body = seg.substr(bar, bare - bar);
        if (body.size() != 40) return fmt("the bar is %zu wide", body.size());
        size_t eq = 0;
        while (eq < body.size() && body[eq] == '=') eq++;
        if (pc < 0 || pc > 100) return fmt("%ld%%", pc);
        if (n < 0 || k > n || k < 0) return fmt("%ld of %ld", k, n);
        rest += seg.substr(0, b0) + fmt("<%ld %zu %ld/%ld>", pc, eq, k, n);
        size_t t = seg.find('[', bare);
        size_t te = t == std::string::npos ? t : seg.find(']', t);
        if (te != std::string::npos) rest += seg.substr(te + 1);
    }
    return "";
}
static Bytes c17_program(const Plan &p) {
    Bytes b;
    captured_reset();
    Mesh *m = nullptr;
    if (!p.meshes.empty()) m = build(make_trimesh(p.meshes[0]));
    ProgressBar *bar = nullptr;
    long total = -1;
    bool finished = false;
    for (auto &op : p.ops) {
        if (op.name == "bar" && !bar) {
            total = (long)op.arg(0);
            must("making a progress bar", [&] {
                bar = new ProgressBar((int)total);
                if (op.iarg(1) == 1) bar->set_description("task");
                if (op.iarg(1) == 2) bar->set_description("%d of %s", 3, "many");
            });
        } else if (op.name == "step" && bar) must("step", [&] { bar->step((int)op.arg(0, 1)); });
        else if (op.name == "finish" && bar) {
            must("finish", [&] { bar->finish(); });
            finished = true;
        } else if (m) {
            Called c;
            if (!mutate(*m, op, c)) continue;
            if (!c.ok()) b.str(c.what);
            b.mesh(*m);
        }
    }
    if (bar) must("destroying", [&] { delete bar; });
    size_t n;
    const char *o = captured_out(&n);
    std::vector<std::array<long, 3>> lines;
    std::string rest;
    std::string e = read_progress(std::string(o, n), lines, rest);
    sim::checked();
    if (!e.empty()) sim::violation("progress-wrong", "progress output shows %s", e.c_str());
    long last = -1, lastn = -1;
    for (auto &l : lines) {
        if (l[2] == lastn && l[1] < last) {
            // a new bar with the same total starts again
            if (last != lastn) sim::violation("progress-wrong", "progress goes back from %ld to %ld", last, l[1]);
        }
        last = l[1];
        lastn = l[2];
    }
    if (total >= 0)
        for (auto &l : lines)
            if (l[2] != total) sim::violation("progress-wrong", "progress output shows a total of %ld instead of %ld", l[2], total);
    if (finished && total > 0 && (lines.empty() || last != total)) sim::violation("progress-wrong", "finished at %ld of %ld", last, total);
    // elapsed times may differ
    for (size_t at = rest.find(" sec"); at != std::string::npos; at = rest.find(" sec", at + 1)) {
        size_t from = at;
        while (from > 0 && strchr("0123456789.+-einfa", rest[from - 1])) from--;
        rest.erase(from, at - from);
        at = from;
    }
    b.str(rest);
    if (!lines.empty()) sim::probe("progress_lines", lines.size());
    destroy(m);
    return b;
}
static void c17_exec(const Plan &p) {
    sim::Config rc = p.config();
    rc.clock = 0;
    RefResult ref = run_reference(rc, [&] { return c17_program(p).b; });
    if (!ref.done) sim::violation(ref.cls.c_str(), "with a steady clock: %s", ref.msg.c_str());
    Bytes b = c17_program(p);
    sim::checked();
    if (b.b != ref.bytes) sim::violation("clock-dependence", "the result differs from the one with a steady clock");
    uint64_t h = 0;
    for (auto c : b.b) h = h * 131 + c;
    sim::shape(h);
    sim::hash_in(h);
    sample(p, fmt("clock=%lld reads=%llu", (long long)p.c("clock"), (unsigned long long)sim::g.clockreads));
}

// ---------------------------------------------------------------- C18
static void c18_gen(Plan &p, Rng &r) {
    gen_heap(p, r);
    if (r.chance(0.4)) gen_sched(p, r, 4);
    p.meshes.push_back(gen_mesh(r, MF_ANY | (r.chance(0.85) ? MF_SMALL : 0)));
    for (int i = r.range(0, 2); i > 0; i--) p.op("pre", {(double)r.below(1u << 30)});
    int k = r.range(0, 19);
    if (k < 2) p.op("build", {});
    else if (k < 4) p.op("load", {(double)r.below(NSTYLE)});
    else if (k < 6) p.op("save", {(double)r.below(2)});
    else if (k < 12) {
        // Eigen's sparse LU, used by hks, does not survive a failed allocation itself
        Op o = gen_query(r);
        p.ops.push_back(o.name == "hks" ? Op{"clone", {}} : o);
    } else {
        Op o = gen_mutation(r, true);
        if (o.name == "lock" || o.name == "move") o = Op{"remesh", {0.7, 1.3, 0.0, 1, (double)r.below(2)}};
        p.ops.push_back(o);
    }
    p.fault("alloc", {r.chance(0.2) ? 0.0 : r.chance(0.2) ? 0.999999 : r.unit(), (double)(r.below(3) == 0)});
}
struct C18 {
    TriMesh t, other;
    Mesh *m = nullptr;
    Op op;
    bool readonly = false, file = false;
    FileSpec f;
    std::string path;
};
static void c18_setup(const Plan &p, C18 &s) {
    s.t = make_trimesh(p.meshes.empty() ? Op{} : p.meshes[0]);
    s.m = build(s.t);
    s.op = Op{"build", {}};
    for (auto &o : p.ops) {
        if (o.name == "pre") {
            Rng r((uint64_t)o.arg(0));
            static const char *const n[] = {"split", "collapse", "flip", "lap"};
            Called c;
            mutate(*s.m, Op{n[r.below(4)], {(double)r.below(100000), 0, 1}}, c);
            continue;
        }
        s.op = o;
        break;
    }
    if (s.op.name == "load") {
        s.f = make_file(s.t, s.op.iarg(0));
        s.path = "/simdisk/in" + s.f.ext;
        sim::disk_put(s.path.c_str(), s.f.bytes.data(), s.f.bytes.size());
        s.file = true;
    }
    if (s.op.name == "save") {
        s.path = s.op.iarg(0) ? "/simdisk/out.obj" : "/simdisk/out.ply";
        s.readonly = s.file = true;
    }
}
// runs the judged operation; the bytes describe its result
static Called c18_run(C18 &s, Bytes &b) {
    Called c;
    Mesh *k = nullptr;
    if (s.op.name == "build") c = call([&] { s.m->construct(s.t.pos, s.t.tri); });
    else if (s.op.name == "load") c = call([&] { s.m->load(s.path); });
    else if (s.op.name == "save") c = call([&] { s.m->save(s.path); });
    else if (s.op.name == "clone") {
        s.readonly = true;
        c = call([&] { k = new Mesh(s.m->clone()); });
    } else if (!mutate(*s.m, s.op, c)) {
        s.readonly = true;
        // the summary ends with how the call ended
        query(*s.m, s.op, b);
        uint64_t len, end = 0;
        std::string what;
        // ... <end:8> <len:8> <what>
        for (size_t w = 0; w <= 200 && b.b.size() >= 16 + w; w++) {
            size_t at = b.b.size() - w - 16;
            end = len = 0;
            for (int i = 0; i < 8; i++) end |= (uint64_t)b.b[at + (size_t)i] << (8 * i), len |= (uint64_t)b.b[at + 8 + (size_t)i] << (8 * i);
            if (len == w && end <= C_BADALLOC) {
                what.assign(b.b.end() - (long)w, b.b.end());
                break;
            }
        }
        c.end = (CallEnd)end;
        c.what = what;
        return c;
    }
    sim::disarm_alloc_fault();
    if (k) {
        b.mesh(*k);
        destroy(k);
    }
    if (c.ok() && s.op.name == "save") {
        const unsigned char *d;
        size_t n;
        if (sim::disk_get(s.path.c_str(), &d, &n)) b.str(std::string((const char *)d, n));
    }
    if (c.ok() && s.op.name != "save" && s.op.name != "clone") b.mesh(*s.m);
    return c;
}
static C18 *c18_cur;
static Snap c18_before;
static void c18_readonly_kept() {
    sim::checked();
    if (!c18_cur->readonly) return;
    std::string d = diff(c18_before, snap(*c18_cur->m), D_ALL | D_PTR);
    if (!d.empty()) sim::violation("mesh-changed", "%s ran out of memory and changed the mesh: %s", c18_cur->op.name.c_str(), d.c_str());
}
static void c18_terminate(int how, const char *) {
    // native builds report file errors by printing and stopping
    if (how == 0 && sim::g.alloc_failed) {
        if (!c18_cur->file) sim::violation("wrong-error", "%s ran out of memory but reported another error", c18_cur->op.name.c_str());
        sim::disarm_alloc_fault();
        c18_readonly_kept();
        sim::probe("reported_by_stopping");
        sim::finish_ok();
    }
}
static void c18_exec(const Plan &p) {
    double frac = 0;
    bool persist = false, fault = false;
    for (auto &f : p.faults)
        if (f.name == "alloc") {
            frac = std::min(0.999999, std::fabs(f.arg(0)));
            persist = f.arg(1) != 0;
            fault = true;
        }
    RefResult ref = run_reference(p.config(), [&] {
        C18 s;
        c18_setup(p, s);
        Bytes b, out;
        if (!applicable(*s.m, s.op)) return out.b;
        sim::arm_alloc_fault(~0ull >> 1, false);
        Called c = c18_run(s, b);
        uint64_t n = sim::g.alloc_count;
        out.u64(n);
        out.u64(c.ok());
        out.str(c.what);
        out.b.insert(out.b.end(), b.b.begin(), b.b.end());
        return out.b;
    });
    if (!ref.done) {
        // refuses even with plenty of memory, or another property's business
        sim::probe("refused_anyway");
        if (ref.cls != "terminate" && ref.cls != "abort") sim::violation(ref.cls.c_str(), "without any fault: %s", ref.msg.c_str());
        return;
    }
    if (ref.bytes.empty()) {
        sim::probe("not_applicable_here");
        return;
    }
    Bytes rb;
    rb.b = ref.bytes;
    uint64_t total = rb.ru64();
    bool ref_ok = rb.ru64() != 0;
    size_t wl_ = (size_t)rb.ru64();
    std::vector<unsigned char> want(rb.b.begin() + (long)(rb.pos + wl_), rb.b.end());
    C18 s;
    c18_setup(p, s);
    c18_cur = &s;
    c18_before = snap(*s.m);
    if (!total || !fault) {
        sim::probe("no_allocation");
        return;
    }
    sim::g.on_terminate = c18_terminate;
    sim::arm_alloc_fault(1 + (uint64_t)(frac * (double)total), persist);
    Bytes got;
    Called c = c18_run(s, got);
    sim::disarm_alloc_fault();
    sim::g.on_terminate = nullptr;
    bool hit = sim::g.alloc_failed > 0;
    sim::checked();
    sim::probe("fault_planned");
    if (hit) sim::probe(("op_" + s.op.name).c_str());
    if (c.ok() && ref_ok && got.b != want)
        sim::violation("wrong-result", "%s returned normally with another result after allocation %llu of %llu failed", s.op.name.c_str(),
                       (unsigned long long)(1 + (uint64_t)(frac * (double)total)), (unsigned long long)total);
    if (c.ok() && !ref_ok) sim::violation("wrong-result", "%s reports an error with memory and none without", s.op.name.c_str());
    if (!c.ok() && ref_ok && hit && c.end != C_BADALLOC && !s.file)
        sim::violation("wrong-error", "%s ran out of memory but reported: %s", s.op.name.c_str(), c.what.c_str());
    if (!c.ok()) {
        sim::probe("reported");
        c18_readonly_kept();
    } else
        sim::probe("survived");
    // rebuild, then destroy
    Mesh *fresh = build(s.t);
    must("building after running out of memory", [&] { s.m->construct(s.t.pos, s.t.tri); });
    std::string d = diff(snap(*fresh), snap(*s.m), D_ALL);
    if (!d.empty()) sim::violation("left-behind", "a mesh rebuilt after a failed %s differs from a fresh one: %s", s.op.name.c_str(), d.c_str());
    sim::shape((uint64_t)c.end * 31 + digest(*fresh) + total);
    sample(p, fmt("op=%s allocation %llu of %llu ended=%s", s.op.name.c_str(), (unsigned long long)(1 + (uint64_t)(frac * (double)total)),
                  (unsigned long long)total, c.ok() ? "normally" : c.what.c_str()));
    destroy(fresh);
    destroy(s.m);
}

// ---------------------------------------------------------------- C23
static void c23_gen(Plan &p, Rng &r) {
    gen_heap(p, r);
    if (r.chance(0.3)) gen_sched(p, r, 4);
    if (std::string(VARIANT) == "fast") {
        p.cfg["cap"] = 9000000000;
        p.meshes.push_back(gen_context_mesh(r));
        p.op("complete", {(double)r.range(1, 2)});
        return;
    }
    int nm = r.range(1, 2);
    for (int i = 0; i < nm; i++) p.meshes.push_back(gen_mesh(r, MF_ANY | (r.chance(0.85) ? MF_SMALL : 0)));
    int n = r.chance(0.4) ? 1 : r.range(2, 6);
    for (int i = 0; i < n; i++) {
        double k = (double)r.below(4), x = (double)r.below(1u << 30);
        int faulty = r.chance(0.6);
        switch (r.range(0, 11)) {
        case 0: p.op("build", {k, (double)r.below(9), x}); break;
        case 1: p.op("load", {k, (double)r.below(NSTYLE), (double)r.below(5), x}); break;
        case 2: p.op("open", {k, (double)r.below(NSTYLE), (double)r.below(5), x}); break;
        case 3: p.op("save", {(double)r.below(2), (double)r.below(6), (double)r.range(1, 40)}); break;
        case 4: p.op("tree", {k, (double)r.below(4), x}); break;
        case 5: p.op("new", {k, (double)r.below(9), x}); break;
        case 6:
        case 7: {
            Op o = gen_query(r);
            p.ops.push_back(o.name == "hks" && faulty ? Op{"clone", {}} : o);
            break;
        }
        default: p.ops.push_back(gen_mutation(r, r.chance(0.6)));
        }
        if (faulty) p.op("short", {r.chance(0.5) ? r.unit() * r.unit() : r.unit(), (double)(r.below(3) == 0)});
    }
}
static void damage_list(TriMesh &b, int kind, uint64_t x) {
    size_t nf = b.tri.size() / 3, k = 3 * (x % nf);
    if (kind == 0) b.tri[k + 1] = b.tri[k], b.tri[b.tri.size() - 1] = b.tri[b.tri.size() - 2];
    if (kind == 1) std::swap(b.tri[k + 1], b.tri[k + 2]);
    if (kind == 2) b.pos[x % b.pos.size()] = b.pos[(x / 7) % b.pos.size()];
    if (kind == 3) b.tri.insert(b.tri.end(), b.tri.begin() + (long)k, b.tri.begin() + (long)k + 3);
    if (kind == 4) b.tri[x % b.tri.size()] = (uint32_t)(b.pos.size() + (x >> 9) % 3 * 1000000007u);
    if (kind == 5) b.tri.resize(b.tri.size() - 1 - (x >> 7) % 2);
}
static void c23_program(const Plan &p, const std::vector<TriMesh> &ts, std::vector<uint64_t> &counts, bool measure) {
    Mesh *m = build(ts[0]);
    BVH *tree = nullptr;
    must("making an empty search structure", [&] { tree = new BVH(); });
    bool usable = true;
    sim::disk_reset();
    for (size_t i = 0; i < p.ops.size(); i++) {
        const Op &op = p.ops[i];
        const std::string &n = op.name;
        if (n == "short") continue;
        const TriMesh &t = ts[(size_t)std::fabs(op.arg(0)) % ts.size()];
        // memory runs out at a part of the way, known from the first time
        bool lack = i + 1 < p.ops.size() && p.ops[i + 1].name == "short" && n != "hks";
        auto begin = [&] {
            if (measure) sim::arm_alloc_fault(~0ull >> 1, false);
            else if (lack && counts[i]) sim::arm_alloc_fault(1 + (uint64_t)(std::min(0.999999, std::fabs(p.ops[i + 1].arg(0))) * (double)counts[i]), p.ops[i + 1].arg(1) != 0);
        };
        auto end = [&] {
            if (measure) counts[i] = sim::g.alloc_count;
            sim::disarm_alloc_fault();
        };
        Called c;
        if (n == "build" || n == "new") {
            TriMesh b = t;
            damage_list(b, op.iarg(1) % 9, (uint64_t)op.arg(2));
            Mesh *k = nullptr;
            begin();
            c = n == "new" ? call([&] { k = new Mesh(b.pos, b.tri); }) : call([&] { m->construct(b.pos, b.tri); });
            end();
            if (n == "build") usable = c.ok() && !b.tri.empty();
            if (k) destroy(k);
        } else if (n == "load" || n == "open") {
            FileSpec f = make_file(t, op.iarg(1));
            uint64_t x = (uint64_t)op.arg(3);
            int kind = op.iarg(2) % 5;
            std::string path = "/simdisk/in" + f.ext;
            if (kind == 0) f.bytes.resize(x % f.bytes.size());
            if (kind == 1) f.bytes[x % f.bytes.size()] ^= (char)(1 + x % 255);
            if (kind == 3) path = "/simdisk/none" + f.ext;
            else sim::disk_put(path.c_str(), f.bytes.data(), f.bytes.size());
            sim::DiskFault df = {sim::F_READ_ERR, 1 + x % 3, EIO, 1};
            sim::disk_faults(&df, kind == 2 ? 1 : 0);
            Mesh *k = nullptr;
            begin();
            c = n == "open" ? call([&] { k = new Mesh(path); }) : call([&] { m->load(path); });
            end();
            sim::disk_faults(nullptr, 0);
            if (n == "load") usable = c.ok() && m->numFaces() && validate(*m, true).empty();
            if (k) destroy(k);
        } else if (n == "save") {
            if (!usable) continue;
            std::string path = op.iarg(0) ? "/simdisk/out.obj" : "/simdisk/out.ply";
            int kind = op.iarg(1) % 6;
            sim::DiskFault df = {kind == 1 ? sim::F_OPEN_ERR : kind == 2 ? sim::F_CLOSE_ERR : sim::F_WRITE_ERR, kind == 3 ? (uint64_t)std::max(1.0, op.arg(2)) : 1, ENOSPC, 0};
            sim::disk_faults(&df, kind >= 1 && kind <= 3 ? 1 : 0);
            begin();
            c = call([&] { m->save(path); });
            end();
            sim::disk_faults(nullptr, 0);
        } else if (n == "tree") {
            TriMesh b = t;
            if (op.iarg(1) % 4 < 2) damage_list(b, 4 + op.iarg(1) % 4, (uint64_t)op.arg(2));
            begin();
            c = call([&] { tree->construct(b.pos, b.tri); });
            end();
        } else {
            if (!usable || !applicable(*m, op)) continue;
            Bytes b;
            begin();
            bool known = mutate(*m, op, c);
            if (known) end();
            else {
                // a query disarms nothing itself; what it returns is of no interest here
                query(*m, op, b);
                end();
            }
            if (!validate(*m, true).empty()) usable = false;
        }
        sim::probe(c.ok() ? "returned" : "reported");
    }
    sim::disarm_alloc_fault();
    must("destroying a search structure", [&] { delete tree; });
    destroy(m);
}
static void c23_exec(const Plan &p) {
    std::vector<TriMesh> ts;
    for (auto &s : p.meshes) ts.push_back(make_trimesh(s));
    if (ts.empty()) ts.push_back(make_trimesh(Op{}));
    std::vector<uint64_t> counts(p.ops.size() + 1, 0);
    // what is kept on purpose (tables built on first use) is there after the first and second time
    c23_program(p, ts, counts, true);
    c23_program(p, ts, counts, false);
    uint64_t before = sim::heap_live_blocks();
    uint64_t bytes = sim::heap_live_bytes();
    int files = sim::disk_open_handles();
    c23_program(p, ts, counts, false);
    uint64_t after = sim::heap_live_blocks();
    sim::checked();
    sim::shape(after - before + counts[0]);
    sample(p, fmt("blocks=%llu", (unsigned long long)after));
    uint64_t grown = sim::heap_live_bytes();
    if (after > before || grown > bytes) {
        // a buffer kept for the next call grows with the largest share of a loop it was given, and then no more:
        // what leaks, leaks every time, or whenever the number of repetitions has doubled with one thread at work
        uint64_t blocks = after, size = grown;
        bool leaks = true;
        for (int k = 0; k < 6 && leaks; k++) {
            c23_program(p, ts, counts, false);
            uint64_t b = sim::heap_live_blocks(), n = sim::heap_live_bytes();
            leaks = b > blocks || n > size;
            blocks = b;
            size = n;
        }
        if (!leaks) {
            int had = sim::g.cur->nthreads;
            sim::g.cur->nthreads = 1;
            c23_program(p, ts, counts, true);
            leaks = true;
            for (int k = 10, done = 0; k <= 40 && leaks; k *= 2) {
                size = sim::heap_live_bytes();
                for (; done < k; done++) c23_program(p, ts, counts, false);
                leaks = k == 10 || sim::heap_live_bytes() > size;
            }
            sim::g.cur->nthreads = had;
        }
        if (leaks && after > before)
            sim::violation("memory-left", "repeating the program leaves %llu more blocks of memory behind", (unsigned long long)(after - before));
        if (leaks) sim::violation("memory-left", "repeating the program leaves %llu more bytes of memory behind", (unsigned long long)(grown - bytes));
    }
    sim::checked();
    if (files || sim::disk_open_handles()) sim::violation("file-left-open", "%d files are still open after the program", sim::disk_open_handles());
}

extern const PropDef env_props[] = {
    {"C12", "native", c12_gen, c12_exec}, {"C13", "both", c13_gen, c13_exec}, {"C14", "both", c14_gen, c14_exec},
    {"C15", "native", c15_gen, c15_exec}, {"C16", "py", c16_gen, c16_exec},   {"C17", "native", c17_gen, c17_exec},
    {"C18", "both", c18_gen, c18_exec},     {"C23", "both", c23_gen, c23_exec},
};
extern const int env_count = 8;
}  // namespace wl
