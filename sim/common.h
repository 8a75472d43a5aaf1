// Plans, mesh generators, oracles shared by all properties.
#pragma once
#include <array>
#include <cmath>
#include <cstdint>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

#include "core/bvh.h"
#include "core/face.h"
#include "core/halfedge.h"
#include "core/mesh.h"
#include "core/vec.h"
#include "core/vertex.h"
#include "rt.h"

namespace wl {

using tinymesh::Face;
using tinymesh::Halfedge;
using tinymesh::Mesh;
using tinymesh::Vertex;
using sim::Rng;

// ---------------------------------------------------------------- plans
struct Op {
    std::string name;
    std::vector<double> a;
    double arg(size_t i, double d = 0) const { return i < a.size() ? a[i] : d; }
    int iarg(size_t i, int d = 0) const { return (int)arg(i, d); }
};
struct Plan {
    std::string prop;
    std::string variant = "native";
    uint64_t seed = 1, idx = 0;
    std::map<std::string, int64_t> cfg;
    std::vector<Op> meshes;  // name unused
    std::vector<Op> ops;
    std::vector<Op> faults;
    std::vector<sim::SwitchRec> sw;
    bool explicit_sched = false;
    int64_t c(const char *k, int64_t d = 0) const {
        auto it = cfg.find(k);
        return it == cfg.end() ? d : it->second;
    }
    void op(const std::string &n, std::vector<double> a = {}) { ops.push_back(Op{n, a}); }
    void fault(const std::string &n, std::vector<double> a = {}) { faults.push_back(Op{n, a}); }
    std::string text() const;
    static bool parse(const std::string &text, Plan &out, std::string &err);
    sim::Config config() const;
};

// draws scheduler, heap, clock settings
void gen_sched(Plan &p, Rng &r, int maxthreads);
void gen_heap(Plan &p, Rng &r);
void gen_clock(Plan &p, Rng &r);
enum MeshFlags { MF_CLOSED = 1, MF_OPEN = 2, MF_ANY = 3, MF_SMALL = 4, MF_BIG = 8, MF_REGULAR = 16, MF_HUGE = 32 };
Op gen_mesh(Rng &r, int flags);
Op gen_context_mesh(Rng &r);  // open, with enough vertices for context-coherent completion

struct PropDef {
    const char *id;
    const char *variant;  // native, py, both
    void (*gen)(Plan &p, Rng &r);
    void (*exec)(const Plan &p);
};
const PropDef *find_prop(const std::string &id);

// ---------------------------------------------------------------- triangle lists
struct TriMesh {
    std::vector<Vec3> pos;
    std::vector<uint32_t> tri;
};
TriMesh make_trimesh(const Op &spec);
bool tri_manifold(const TriMesh &m);

// ---------------------------------------------------------------- calling the library
enum CallEnd { C_OK, C_EXC, C_BADALLOC };
struct Called {
    CallEnd end = C_OK;
    std::string what;
    bool ok() const { return end == C_OK; }
};
template <typename F>
Called call(F &&f) {
    Called c;
    try {
        sim::Lib in;
        f();
    } catch (const std::bad_alloc &) {
        c.end = C_BADALLOC;
        c.what = "bad_alloc";
    } catch (const std::exception &e) {
        c.end = C_EXC;
        c.what = e.what();
    } catch (...) {
        c.end = C_EXC;
        c.what = "unknown exception";
    }
    return c;
}
// the library must not report an error here
template <typename F>
void must(const char *what, F &&f) {
    Called c = call(f);
    if (!c.ok()) sim::violation("unexpected-error", "%s reported an error: %s", what, c.what.c_str());
}
Mesh *build(const TriMesh &t);
void destroy(Mesh *m);

// ---------------------------------------------------------------- observing a mesh
struct Snap {
    std::vector<const Vertex *> vp;
    std::vector<const Halfedge *> hp;
    std::vector<const Face *> fp;
    std::vector<Vec3> pos;
    std::vector<char> locked;
    std::vector<int> hsrc, hnext, hrev, hface, hbnd;
    std::vector<int> vhe, fhe;
};
Snap snap(const Mesh &m);
enum DiffFlags { D_POS = 1, D_CONN = 2, D_LOCK = 4, D_BND = 8, D_PTR = 16, D_ALL = 31 & ~16 };
// empty when equal
std::string diff(const Snap &a, const Snap &b, int flags, double tol = 0.0);
std::string validate(const Mesh &m, bool finite = true, bool lone = false);
uint64_t digest(const Mesh &m);
uint64_t digest(const Snap &s);

struct Topo {
    int V, E, F, loops, comps, chi;  // F: triangles, loops: boundary loops, chi over triangles
    bool operator==(const Topo &o) const { return loops == o.loops && comps == o.comps && chi == o.chi; }
};
Topo topology(const Mesh &m);
// faces as sorted vertex triples (numbers), orientation kept by rotation
std::vector<std::array<int, 3>> triangles(const Mesh &m);
std::set<std::array<const Vertex *, 3>> triangle_ptrs(const Mesh &m);
std::vector<Face *> holes(const Mesh &m);
size_t widest(const Mesh &m);  // edges of the longest boundary loop

// ---------------------------------------------------------------- reference execution in a forked process
struct RefResult {
    bool done = false;          // finished normally
    std::string cls, msg;       // otherwise: how it ended
    std::vector<unsigned char> bytes;
};
RefResult run_reference(const sim::Config &cfg, const std::function<std::vector<unsigned char>()> &fn);

struct Bytes {
    std::vector<unsigned char> b;
    void u64(uint64_t v) { for (int i = 0; i < 8; i++) b.push_back((unsigned char)(v >> (8 * i))); }
    void d(double v) { uint64_t u; if (v != v) v = __builtin_nan(""); __builtin_memcpy(&u, &v, 8); u64(u); }
    void str(const std::string &s) { u64(s.size()); b.insert(b.end(), s.begin(), s.end()); }
    void mesh(const Mesh &m);
    size_t pos = 0;
    uint64_t ru64() { uint64_t v = 0; for (int i = 0; i < 8; i++) v |= (uint64_t)b[pos++] << (8 * i); return v; }
    std::string where(const std::vector<unsigned char> &o, size_t at, size_t n) const {
        for (size_t i = 0; i + 8 <= n && at + i + 8 <= b.size() && i + 8 <= o.size(); i += 8)
            if (__builtin_memcmp(&b[at + i], &o[i], 8) != 0) {
                double x, y;
                __builtin_memcpy(&x, &o[i], 8);
                __builtin_memcpy(&y, &b[at + i], 8);
                return std::string("word ") + std::to_string(i / 8) + ": " + num(x) + " vs " + num(y);
            }
        return "length";
    }
    static std::string num(double x) { char t[40]; snprintf(t, sizeof t, "%.17g", x); return t; }
    double rd() { uint64_t u = ru64(); double v; __builtin_memcpy(&v, &u, 8); return v; }
};

// captured standard output of the library
const char *captured_out(size_t *n);
void captured_reset();

// generic operations on one mesh, shared by several properties. Returns false if the name is unknown.
struct Env {
    std::vector<Mesh *> m;
    Called last;
};
bool mutate(Mesh &m, const Op &op, Called &res);
// read-only operations: appends a summary of the result
bool query(const Mesh &m, const Op &op, Bytes &out);

std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
void sample(const Plan &p, const std::string &extra);
}  // namespace wl
