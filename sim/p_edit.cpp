// C06-C11: edit histories, failed edits, remeshing, simplification, hole filling, completion.
#include <algorithm>
#include <cstring>

#include "common.h"
#include "filters/filters.h"
#include "remesh/remesh.h"
#include "restore/restore.h"
#include "core/utils.h"

using namespace tinymesh;

namespace wl {

// ---------------------------------------------------------------- shared pieces
static Halfedge *pick_he(Mesh &m, double index, bool local, size_t cursor) {
    uint64_t k = (uint64_t)std::fabs(index);
    if (!local) return m.halfedge((int)(k % m.numHalfedges()));
    // the k-th edge side in the neighbourhood of the cursor
    Halfedge *h = m.vertex((int)(cursor % m.numVertices()))->he_begin().ptr();
    for (uint64_t i = 0; i < k % 24; i++) h = i & 1 ? h->next() : h->rev()->next();
    return h;
}
static Op gen_edit(Rng &r, bool open, bool local) {
    double i = (double)r.below(1000000), l = local ? 1 : 0;
    int k = r.range(0, open ? 23 : 19);
    if (k < 6) return Op{"split", {i, l}};
    if (k < 13) return Op{"collapse", {i, l}};
    if (k < 18) return Op{"flip", {i, l}};
    if (k < 20) return Op{"cface", {i, l}};
    if (k < 23) return Op{"fillmin", {i, r.chance(0.5) ? Pi : 0.1 + 3 * r.unit()}};
    return Op{"fillholes", {}};
}
static size_t loop_len(Face *f) {
    Halfedge *h = f->he_begin().ptr(), *h0 = h;
    size_t n = 0;
    do {
        n++;
        h = h->next();
    } while (h != h0);
    return n;
}

// whether a boundary loop can be triangulated without joining two vertices that are joined already
static bool fillable(Face *f) {
    std::vector<const Vertex *> l;
    Halfedge *h = f->he_begin().ptr(), *h0 = h;
    do {
        l.push_back(h->src());
        h = h->next();
    } while (h != h0);
    int n = (int)l.size();
    if (n < 3) return false;
    std::map<const Vertex *, int> at;
    for (int i = 0; i < n; i++) at[l[(size_t)i]] = i;
    std::vector<char> ok((size_t)(n * n), 0), joined((size_t)(n * n), 0);
    h = h0;
    for (int i = 0; i < n; i++, h = h->next()) {
        Halfedge *g = h, *g0 = h;
        do {
            auto it = at.find(g->rev()->src());
            if (it != at.end()) joined[(size_t)(i * n + it->second)] = joined[(size_t)(it->second * n + i)] = 1;
            g = g->rev()->next();
        } while (g != g0);
    }
    joined[(size_t)(n - 1)] = 0;
    for (int d = 1; d < n; d++)
        for (int i = 0; i + d < n; i++) {
            int k = i + d;
            bool y = d == 1;
            if (d > 1 && !joined[(size_t)(i * n + k)])
                for (int q = i + 1; q < k && !y; q++) y = ok[(size_t)(i * n + q)] && ok[(size_t)(q * n + k)];
            ok[(size_t)(i * n + k)] = y;
        }
    return ok[(size_t)(n - 1)];
}
static bool refusal_expected;
static void edit_terminated(int how, const char *) {
    if (how != 0 || !refusal_expected) return;
    // the native library reports an error by ending the process
    sim::g.on = 0;
    sim::checked();
    sim::probe("impossible_fill_refused");
    sim::finish_ok();
}

// one edit with its bookkeeping judged
static bool edit(Mesh &m, const Op &op, size_t &cursor, bool &did) {
    Topo a = topology(m);
    Snap sa = snap(m);
    Called c;
    bool ret = false;
    int dV = 0, dE = 0, dF = 0, dL = 0, dX = 0;
    bool exact = true;
    did = false;
    refusal_expected = false;
    if (op.name == "split" || op.name == "collapse" || op.name == "flip") {
        Halfedge *h = pick_he(m, op.arg(0), op.arg(1) != 0, cursor);
        size_t at = (size_t)h->src()->index();
        bool onb = h->isBoundary() || h->rev()->isBoundary();
        if (op.name == "split") c = call([&] { ret = m.splitHE(h); });
        else if (op.name == "collapse") c = call([&] { ret = m.collapseHE(h); });
        else c = call([&] { ret = m.flipHE(h); });
        if (ret) {
            if (op.name == "split") dV = 1, dE = onb ? 2 : 3, dF = onb ? 1 : 2;
            if (op.name == "collapse") dV = -1, dE = onb ? -2 : -3, dF = onb ? -1 : -2;
        }
        cursor = at;
    } else if (op.name == "cface") {
        // a triangle near the cursor or anywhere
        Halfedge *h = pick_he(m, op.arg(0), op.arg(1) != 0, cursor);
        if (h->isBoundary()) {
            h = h->rev();
            if (h->isBoundary()) return true;
        }
        cursor = (size_t)h->src()->index();
        c = call([&] { ret = m.collapseFace(h->face()); });
        exact = false;
    } else if (op.name == "fillmin") {
        auto hs = holes(m);
        if (hs.empty()) return true;
        Face *f = hs[(size_t)op.arg(0) % hs.size()];
        int n = (int)loop_len(f);
        refusal_expected = !fillable(f);
        c = call([&] { holeFillMinDihedral(m, f, op.arg(1, Pi)); });
        ret = true;
        dE = n - 3;
        dF = n - 2;
        dL = -1;
        dX = 1;
    } else if (op.name == "fillholes") {
        for (auto f : holes(m)) {
            int n = (int)loop_len(f);
            refusal_expected = refusal_expected || !fillable(f);
            dE += n - 3;
            dF += n - 2;
            dL--;
            dX++;
        }
        c = call([&] { m.fillHoles(); });
        ret = true;
    } else
        return false;
    if (!c.ok()) {
        if (c.end == C_EXC && refusal_expected && (op.name == "fillmin" || op.name == "fillholes")) {
            // a hole that cannot be filled with triangles is refused
            sim::probe("impossible_fill_refused");
            std::string d = diff(sa, snap(m), D_ALL | D_PTR);
            if (!d.empty() && op.name == "fillmin") sim::violation("refused-edit-changed-mesh", "%s was refused (%s) but changed the mesh: %s", op.name.c_str(), c.what.c_str(), d.c_str());
            return true;
        }
        sim::violation("unexpected-error", "%s reported an error: %s", op.name.c_str(), c.what.c_str());
    }
    sim::checked();
    std::string v = validate(m);
    if (!v.empty()) sim::violation("invalid-mesh", "after %s (%s): %s", op.name.c_str(), ret ? "accepted" : "refused", v.c_str());
    Topo b = topology(m);
    if (!exact) {
        // a face collapse is two edge collapses, of which each may be refused
        int k = 0;
        for (k = 0; k <= 2; k++)
            if (b.V == a.V - k) break;
        if (k > 2 || (ret && k != 2) || b.F < a.F - 2 * k || b.F > a.F - k || b.chi != a.chi)
            sim::violation("wrong-counts", "face collapse (%s): vertices %d to %d, edges %d to %d, triangles %d to %d", ret ? "accepted" : "refused", a.V, b.V, a.E, b.E, a.F, b.F);
        if (b.loops != a.loops || b.comps != a.comps) sim::violation("topology-changed", "face collapse changed boundary loops %d to %d or components %d to %d", a.loops, b.loops, a.comps, b.comps);
        did = k > 0;
    } else {
        if (b.V != a.V + dV || b.E != a.E + dE || b.F != a.F + dF)
            sim::violation("wrong-counts", "%s (%s): vertices %d to %d, edges %d to %d, triangles %d to %d; expected changes %+d %+d %+d", op.name.c_str(),
                           ret ? "accepted" : "refused", a.V, b.V, a.E, b.E, a.F, b.F, dV, dE, dF);
        if (b.loops != a.loops + dL || b.comps != a.comps || b.chi != a.chi + dX)
            sim::violation("topology-changed", "%s: boundary loops %d to %d, components %d to %d, Euler characteristic %d to %d", op.name.c_str(), a.loops, b.loops,
                           a.comps, b.comps, a.chi, b.chi);
        did = ret;
    }
    if (!did) {
        std::string d = diff(sa, snap(m), D_ALL | D_PTR);
        if (!d.empty()) sim::violation("refused-edit-changed-mesh", "%s was refused but changed the mesh: %s", op.name.c_str(), d.c_str());
        sim::probe("refused");
    } else
        sim::probe("accepted");
    return true;
}

// ---------------------------------------------------------------- C06
static void c06_gen(Plan &p, Rng &r) {
    bool open = r.chance(0.5);
    p.meshes.push_back(gen_mesh(r, (open ? MF_OPEN : MF_CLOSED) | (r.chance(0.02) ? MF_BIG : r.chance(0.75) ? MF_SMALL : 0)));
    if (open && r.chance(0.03)) p.meshes[0] = Op{"", {9, 3, 3, (double)(r.chance(0.5) ? 0 : r.range(1, 3)), 0, 1, (double)r.range(0, 200), (double)r.below(1000000)}};
    gen_heap(p, r);
    int editors = r.range(1, 3);
    int n = r.chance(0.3) ? r.range(40, 160) : r.range(3, 40);
    // each editor favours something; the order in which editors act is drawn
    int favour[3] = {r.range(0, 4), r.range(0, 4), r.range(0, 4)};
    double loc = r.unit();
    for (int i = 0; i < n; i++) {
        int e = (int)r.below((uint64_t)editors);
        bool local = r.chance(loc);
        Op o = gen_edit(r, open && r.chance(0.3), local);
        if (favour[e] == 1 && r.chance(0.6)) o = Op{"collapse", {(double)r.below(1000000), local ? 1.0 : 0.0}};
        if (favour[e] == 2 && r.chance(0.6)) o = Op{"flip", {(double)r.below(1000000), local ? 1.0 : 0.0}};
        if (favour[e] == 3 && r.chance(0.6)) o = Op{"split", {(double)r.below(1000000), local ? 1.0 : 0.0}};
        o.name = std::string(1, (char)('0' + e)) + "." + o.name;
        p.ops.push_back(o);
    }
}
static void c06_exec(const Plan &p) {
    Mesh *m = build(make_trimesh(p.meshes.empty() ? Op{} : p.meshes[0]));
    std::string v0 = validate(*m);
    if (!v0.empty()) sim::violation("invalid-mesh", "freshly built: %s", v0.c_str());
    sim::g.on_terminate = edit_terminated;
    size_t cursor[4] = {0, 5, 11, 17};
    int n = 0, acc = 0;
    for (auto &op : p.ops) {
        int e = op.name.size() > 2 && op.name[1] == '.' ? (op.name[0] - '0') & 3 : 0;
        Op o = op.name[1] == '.' ? Op{op.name.substr(2), op.a} : op;
        bool did = false;
        if (m->numVertices() > 600 && o.name == "split") continue;
        edit(*m, o, cursor[e], did);
        n++;
        acc += did;
        if (did) sim::shape(digest(*m));
    }
    sample(p, fmt("edits=%d accepted=%d", n, acc));
    destroy(m);
}

// ---------------------------------------------------------------- C07
static void c07_gen(Plan &p, Rng &r) {
    bool open = r.chance(0.4);
    p.meshes.push_back(gen_mesh(r, (open ? MF_OPEN : MF_CLOSED) | MF_SMALL));
    gen_heap(p, r);
    int n = r.range(1, 14);
    for (int i = 0; i < n; i++) {
        int k = r.range(0, 9);
        double at = (double)r.below(1000000);
        if (r.chance(0.15)) p.op("lock", {(double)r.below(100000), (double)(i + 1)});
        p.op(k < 5 ? "split" : k < 8 ? "collapse" : "flip", {at, (double)(i + 1), r.chance(0.5) ? 1.0 : 0.0});
        if (r.chance(0.7)) {
            if (r.chance(0.4)) {
                // every allocation of this edit in turn
                for (int q = 1; q <= 28; q++) p.fault("alloc", {(double)(i + 1), (double)q, 0});
            } else {
                int nf = r.range(1, 3);
                for (int q = 0; q < nf; q++) p.fault("alloc", {(double)(i + 1), (double)(1 + r.below(r.chance(0.5) ? 6 : 30)), (double)r.below(2)});
            }
        }
    }
}
static std::vector<unsigned char> c07_program(const Plan &p, bool faults) {
    Mesh *m = build(make_trimesh(p.meshes.empty() ? Op{} : p.meshes[0]));
    Bytes out;
    size_t cursor = 0;
    for (auto &op : p.ops) {
        if (op.name == "lock") {
            m->vertex((int)((uint64_t)op.arg(0) % m->numVertices()))->lock();
            continue;
        }
        Halfedge *h = pick_he(*m, op.arg(0), op.arg(2) != 0, cursor);
        cursor = (size_t)h->src()->index();
        Snap before = snap(*m);
        bool ret = false, performed = false;
        Called c;
        auto attempt = [&] {
            ret = false;
            if (op.name == "split") return call([&] { ret = m->splitHE(h); });
            if (op.name == "collapse") return call([&] { ret = m->collapseHE(h); });
            return call([&] { ret = m->flipHE(h); });
        };
        if (faults)
            for (auto &f : p.faults) {
                if (f.name != "alloc" || f.arg(0) != op.arg(1)) continue;
                sim::arm_alloc_fault((uint64_t)f.arg(1, 1), f.arg(2) != 0);
                c = attempt();
                bool hit = sim::g.alloc_failed > 0;
                sim::disarm_alloc_fault();
                if (!hit) {
                    performed = true;
                    break;
                }
                sim::checked();
                if (c.ok()) {
                    // an edit that does not need the memory may go on without it, but then completely
                    performed = true;
                    sim::probe("completed_without_memory");
                    break;
                }
                if (c.end != C_BADALLOC)
                    sim::violation("wrong-error", "%s ran out of memory (allocation %d) but reported: %s", op.name.c_str(), f.iarg(1), c.what.c_str());
                std::string d = diff(before, snap(*m), D_ALL | D_PTR);
                if (!d.empty())
                    sim::violation("failed-edit-changed-mesh", "%s ran out of memory at its allocation %d and left the mesh changed: %s", op.name.c_str(), f.iarg(1), d.c_str());
                std::string v = validate(*m);
                if (!v.empty()) sim::violation("invalid-mesh", "after a failed %s: %s", op.name.c_str(), v.c_str());
                sim::probe("failed_edit_undone");
            }
        if (!performed) c = attempt();
        if (!c.ok()) sim::violation("unexpected-error", "%s reported an error without a fault: %s", op.name.c_str(), c.what.c_str());
        if (!ret) {
            std::string d = diff(before, snap(*m), D_ALL | D_PTR);
            sim::checked();
            if (!d.empty()) sim::violation("refused-edit-changed-mesh", "%s was refused but changed the mesh: %s", op.name.c_str(), d.c_str());
            sim::probe("refused");
        }
        std::string v = validate(*m);
        if (!v.empty()) sim::violation("invalid-mesh", "after %s: %s", op.name.c_str(), v.c_str());
        out.u64(ret);
        out.u64(digest(*m));
    }
    out.mesh(*m);
    sim::shape(digest(*m));
    destroy(m);
    return out.b;
}
static void c07_exec(const Plan &p) {
    RefResult ref = run_reference(p.config(), [&] { return c07_program(p, false); });
    if (!ref.done) sim::violation(ref.cls.c_str(), "without faults: %s", ref.msg.c_str());
    std::vector<unsigned char> got = c07_program(p, true);
    sim::checked();
    if (got != ref.bytes) {
        Bytes rb;
        rb.b = ref.bytes;
        size_t k = 0;
        while (k + 8 <= got.size() && k + 8 <= ref.bytes.size() && !memcmp(&got[k], &ref.bytes[k], 8)) k += 8;
        sim::violation("retry-differs", "edits retried after a failure end differently than without the failure (from edit %zu)", k / 16);
    }
    sample(p, fmt("failed allocations=%llu", (unsigned long long)sim::g.res->fired[sim::F_ALLOC]));
}

// ---------------------------------------------------------------- C08
static void c08_gen(Plan &p, Rng &r) {
    bool large = r.chance(0.04);
    p.meshes.push_back(gen_mesh(r, MF_ANY | (large ? MF_BIG : r.chance(0.6) ? MF_SMALL : 0)));
    gen_heap(p, r);
    gen_sched(p, r, 6);
    p.cfg["rseed"] = (int64_t)r.below(1000000);
    if (r.chance(0.06)) p.cfg["rfail"] = 1;
    int n = r.chance(0.1) ? r.range(6, 30) : r.range(0, 5);
    for (int i = 0; i < n; i++) p.op("lock", {(double)r.below(100000)});
    int k = r.chance(0.25) && !large ? 2 : 1;
    int more = r.chance(0.08) && !large ? r.range(1, 5) : 0;
    for (int i = 0; i < k; i++)
        p.op("remesh", {0.3 + 0.7 * r.unit(), 1.05 + 0.8 * r.unit(), r.chance(0.5) ? 0.0 : 3.1 * r.unit(), (double)(r.range(1, 3) + (i == 0 ? more : 0)), (double)r.chance(0.2)});
}
// smallest angle between neighbouring faces around a vertex, the way features are defined
static double min_dihedral(Vertex *v) {
    std::vector<Vec3> nb;
    Halfedge *h = v->he_begin().ptr(), *h0 = h;
    do {
        nb.push_back(h->dst()->pos());
        h = h->rev()->next();
    } while (h != h0);
    // as seen around the vertex in either direction
    double best = Pi;
    int n = (int)nb.size();
    for (int j = 0; j < n; j++) {
        Vec3 p0 = v->pos(), p1 = nb[j], p2 = nb[(j + 1) % n], p3 = nb[(j - 1 + n) % n];
        Vec3 n1 = cross(p1 - p0, p2 - p0), n2 = cross(p3 - p0, p1 - p0);
        // angle between the two faces along the edge p0-p1: pi when flat
        double l = length(n1) * length(n2);
        if (l == 0.0) continue;
        Vec3 e = p1 - p0;
        double le = length(e);
        double x = dot(n1, n2), y = dot(cross(n1, n2), e) / (le == 0.0 ? 1.0 : le);
        double ang = Pi - std::fabs(std::atan2(y, x));
        best = std::min(best, ang);
    }
    return best;
}
struct P3 {
    double x, y, z;
    bool operator==(const P3 &o) const { return x == o.x && y == o.y && z == o.z; }
    bool operator<(const P3 &o) const { return x != o.x ? x < o.x : y != o.y ? y < o.y : z < o.z; }
};
static P3 p3(const Vec3 &v) { return P3{v[0], v[1], v[2]}; }

static std::vector<unsigned char> c08_program(const Plan &p, bool judge, bool &failed) {
    Mesh *m = build(make_trimesh(p.meshes.empty() ? Op{} : p.meshes[0]));
    failed = false;
    for (auto &op : p.ops) {
        if (op.name != "remesh") {
            Called c;
            mutate(*m, op, c);
            continue;
        }
        Topo a = topology(*m);
        Snap before = snap(*m);
        std::multiset<P3> pinned, bnd;
        for (size_t i = 0; i < m->numVertices(); i++) {
            Vertex *v = m->vertex((int)i);
            if (v->isLocked() || (!v->isBoundary() && min_dihedral(v) < op.arg(2) - 1e-6)) pinned.insert(p3(v->pos()));
            if (v->isBoundary()) bnd.insert(p3(v->pos()));
        }
        Called c;
        mutate(*m, op, c);
        if (!c.ok()) {
            failed = true;
            if (judge) {
                sim::checked();
                if (sim::g.cfg.rfail) {
                    std::string d = diff(before, snap(*m), D_POS | D_CONN | D_BND | D_PTR);
                    if (!d.empty()) sim::violation("failed-remesh-changed-mesh", "no random numbers were available, an error was reported, but the mesh changed: %s", d.c_str());
                    sim::probe("no_randomness_reported");
                } else
                    sim::probe("remesh_refused");
            }
            break;
        }
        if (judge && sim::g.cfg.rfail && op.iarg(3) > 0) sim::violation("error-lost", "remeshing went on although no random numbers were available");
        if (!judge) continue;
        sim::checked();
        std::string v = validate(*m);
        if (!v.empty()) sim::violation("invalid-mesh", "after remeshing: %s", v.c_str());
        Topo b = topology(*m);
        if (!(a == b))
            sim::violation("topology-changed", "remeshing changed components %d to %d, boundary loops %d to %d, Euler characteristic %d to %d", a.comps, b.comps, a.loops, b.loops, a.chi, b.chi);
        std::multiset<P3> lk, bd;
        for (size_t i = 0; i < m->numVertices(); i++) {
            Vertex *q = m->vertex((int)i);
            if (q->isLocked()) lk.insert(p3(q->pos()));
            if (q->isBoundary()) bd.insert(p3(q->pos()));
        }
        for (auto &q : pinned) {
            auto it = lk.find(q);
            if (it == lk.end()) sim::violation("locked-vertex-lost", "a locked or feature vertex at (%g %g %g) moved or disappeared", q.x, q.y, q.z);
            lk.erase(it);
        }
        for (auto &q : bnd) {
            auto it = bd.find(q);
            if (it == bd.end()) sim::violation("boundary-vertex-lost", "a boundary vertex at (%g %g %g) moved or disappeared", q.x, q.y, q.z);
            bd.erase(it);
        }
        sim::probe("pinned_checked", pinned.size());
        if (b.V != a.V) sim::probe("vertex_count_changed");
    }
    Bytes out;
    out.mesh(*m);
    if (judge) sim::shape(digest(*m));
    destroy(m);
    return out.b;
}
static void c08_exec(const Plan &p) {
    sim::Config rc = p.config();
    rc.threads = 1;
    rc.vary = 0;
    rc.policy = sim::P_SEQ;
    rc.reuse = (rc.reuse + 1) % 4;
    rc.order = (rc.order + 1) % 3;
    rc.fill = (rc.fill + 2) % 5;
    rc.hseed ^= 0x55;
    rc.clock = 0;
    bool failed = false, rfailed = false;
    Plan q = p;
    for (auto &o : q.ops)
        if (o.name == "remesh" && o.a.size() > 4) o.a[4] = 0;
    RefResult ref = run_reference(rc, [&] {
        std::vector<unsigned char> b = c08_program(q, false, rfailed);
        b.push_back(rfailed);
        return b;
    });
    if (!ref.done) sim::violation(ref.cls.c_str(), "with one thread: %s", ref.msg.c_str());
    std::vector<unsigned char> got = c08_program(p, true, failed);
    got.push_back(failed);
    sim::checked();
    if (got.back() != ref.bytes.back()) sim::violation("schedule-dependent", "remeshing %s here but not with one thread and another memory layout", failed ? "fails" : "succeeds");
    if (!failed && got != ref.bytes) sim::violation("schedule-dependent", "the remeshed surface differs from the one obtained with one thread and another memory layout for the same random numbers");
    sample(p, "");
}

// ---------------------------------------------------------------- C09
static void c09_gen(Plan &p, Rng &r) {
    p.meshes.push_back(gen_mesh(r, MF_ANY | (r.chance(0.04) ? MF_BIG : r.chance(0.5) ? MF_SMALL : 0)));
    gen_heap(p, r);
    gen_sched(p, r, 6);
    gen_clock(p, r);
    int k = r.chance(0.3) ? 2 : 1;
    for (int i = 0; i < k; i++) {
        if (r.chance(0.3)) p.op("lock", {(double)r.below(100000)});
        p.op("simplify", {(double)r.below(1000), (double)(r.chance(0.1) ? r.range(6, 20) : r.range(1, 5)), (double)r.chance(0.5)});
    }
}
static std::vector<unsigned char> c09_program(const Plan &p, bool judge, bool quiet, bool &failed) {
    Mesh *m = build(make_trimesh(p.meshes.empty() ? Op{} : p.meshes[0]));
    failed = false;
    for (auto &op : p.ops) {
        if (op.name != "simplify") {
            Called c;
            mutate(*m, op, c);
            continue;
        }
        Topo a = topology(*m);
        int before = (int)m->numFaces();
        int target = 1 + (int)((double)(before + 2) * op.arg(0) / 1000.0);
        std::multiset<P3> bnd;
        for (size_t i = 0; i < m->numVertices(); i++)
            if (m->vertex((int)i)->isBoundary()) bnd.insert(p3(m->vertex((int)i)->pos()));
        bool verbose = !quiet && op.arg(2) != 0;
        Called c = call([&] { simplifyQEM(*m, target, op.iarg(1, 3), verbose); });
        if (!c.ok()) {
            failed = true;
            if (judge) sim::probe("simplify_refused");
            // the surface may be refused for its geometry; a failure of the report itself is judged against the silent run
            break;
        }
        if (!judge) continue;
        sim::checked();
        int after = (int)m->numFaces(), asked = std::max(0, before - target);
        if (after > before) sim::violation("faces-added", "simplification went from %d to %d faces", before, after);
        if (before - after > asked + (asked & 1))
            sim::violation("removed-too-much", "asked to go from %d to %d faces, ended with %d", before, target, after);
        std::string v = validate(*m);
        if (!v.empty()) sim::violation("invalid-mesh", "after simplification: %s", v.c_str());
        Topo b = topology(*m);
        if (!(a == b))
            sim::violation("topology-changed", "simplification changed components %d to %d, boundary loops %d to %d, Euler characteristic %d to %d", a.comps, b.comps, a.loops, b.loops, a.chi, b.chi);
        std::multiset<P3> bd;
        for (size_t i = 0; i < m->numVertices(); i++)
            if (m->vertex((int)i)->isBoundary()) bd.insert(p3(m->vertex((int)i)->pos()));
        if (bd != bnd) sim::violation("boundary-vertex-lost", "simplification moved, lost or added boundary vertices");
        sim::probe(after <= target ? "target_reached" : "target_missed");
    }
    Bytes out;
    out.mesh(*m);
    if (judge) sim::shape(digest(*m));
    destroy(m);
    return out.b;
}
static void c09_exec(const Plan &p) {
    sim::Config rc = p.config();
    rc.threads = 1;
    rc.vary = 0;
    rc.policy = sim::P_SEQ;
    rc.reuse = (rc.reuse + 1) % 4;
    rc.order = (rc.order + 1) % 3;
    rc.fill = (rc.fill + 2) % 5;
    rc.hseed ^= 0x55;
    rc.clock = 0;
    bool failed = false, rfailed = false;
    RefResult ref = run_reference(rc, [&] {
        std::vector<unsigned char> b = c09_program(p, false, true, rfailed);
        b.push_back(rfailed);
        return b;
    });
    if (!ref.done) sim::violation(ref.cls.c_str(), "with one thread, silently: %s", ref.msg.c_str());
    std::vector<unsigned char> got = c09_program(p, true, false, failed);
    got.push_back(failed);
    sim::checked();
    if (got.back() != ref.bytes.back())
        sim::violation("result-depends-on-environment", "simplification %s here but not silently with one thread, a plain clock and another memory layout", failed ? "fails" : "succeeds");
    if (!failed && got != ref.bytes)
        sim::violation("result-depends-on-environment", "the simplified surface differs from the one obtained silently with one thread, a plain clock and another memory layout");
    sample(p, "");
}

// ---------------------------------------------------------------- C10
static void c10_gen(Plan &p, Rng &r) {
    p.meshes.push_back(gen_mesh(r, MF_OPEN | (r.chance(0.06) ? MF_BIG : r.chance(0.7) ? MF_SMALL : 0)));
    if (r.chance(0.1) && p.meshes[0].a[4] > 0) p.meshes[0].a[4] = r.range(4, 8);
    if (r.chance(0.03)) p.meshes[0] = Op{"", {9, 3, 3, (double)(r.chance(0.6) ? 0 : r.range(1, 3)), 0, 1, (double)r.range(0, 200), (double)r.below(1000000)}};
    gen_heap(p, r);
    int n = r.range(1, 5);
    for (int i = 0; i < n; i++) {
        int e = r.chance(0.4) ? r.range(1, 6) : 0;
        for (int j = 0; j < e; j++) {
            double at = (double)r.below(1000000);
            p.op(r.chance(0.35) ? "split" : r.chance(0.5) ? "collapse" : "flip", {at, 0});
        }
        int k = r.range(0, 9);
        if (k < 4) p.op("fillmin", {(double)r.below(1000), r.chance(0.5) ? Pi : 0.05 + 3 * r.unit()});
        else if (k < 8) p.op("filladv", {(double)r.below(1000)});
        else p.op("fillholes", {});
    }
}
static std::vector<const Vertex *> loop_of(Face *f) {
    std::vector<const Vertex *> l;
    Halfedge *h = f->he_begin().ptr(), *h0 = h;
    do {
        l.push_back(h->src());
        h = h->next();
    } while (h != h0);
    std::rotate(l.begin(), std::min_element(l.begin(), l.end()), l.end());
    return l;
}
static std::vector<unsigned char> c10_program(const Plan &p, bool judge, bool &failed) {
    Mesh *m = build(make_trimesh(p.meshes.empty() ? Op{} : p.meshes[0]));
    failed = false;
    size_t cursor = 0;
    for (auto &op : p.ops) {
        if (op.name == "split" || op.name == "collapse" || op.name == "flip") {
            Called c;
            mutate(*m, op, c);
            continue;
        }
        auto hs = holes(*m);
        if (hs.empty()) break;
        bool all = op.name == "fillholes";
        Face *f = all ? nullptr : hs[(size_t)op.arg(0) % hs.size()];
        bool can = true;
        for (auto g : hs) can = can && (!(all || g == f) || fillable(g));
        if (!can && (p.variant != "py" || op.name == "filladv")) {
            // the native library reports an error by ending the process
            if (judge) sim::probe("impossible_fill_skipped");
            continue;
        }
        if (op.name == "filladv" && loop_len(f) > 16) {
            // a wide front takes many steps of simulated execution; kept out of the bound
            if (judge) sim::probe("front_too_wide");
            continue;
        }
        Topo a = topology(*m);
        Snap before = snap(*m);
        std::set<std::vector<const Vertex *>> others;
        for (auto g : hs)
            if (!all && g != f) others.insert(loop_of(g));
        auto tris = triangle_ptrs(*m);
        Called c;
        if (all) c = call([&] { m->fillHoles(); });
        else if (op.name == "fillmin") c = call([&] { holeFillMinDihedral(*m, f, op.arg(1, Pi)); });
        else c = call([&] { holeFillAdvancingFront(*m, f); });
        if (!can && c.ok() && judge) sim::violation("impossible-fill-accepted", "%s closed a hole that cannot be closed without joining two vertices twice", op.name.c_str());
        if (!c.ok()) {
            failed = true;
            if (judge) {
                sim::checked();
                sim::probe(can ? "fill_refused" : "impossible_fill_refused");
                if (op.name == "fillmin") {
                    std::string d = diff(before, snap(*m), D_ALL | D_PTR);
                    if (!d.empty()) sim::violation("refused-fill-changed-mesh", "filling was refused (%s) but the mesh changed: %s", c.what.c_str(), d.c_str());
                } else if (all) {
                    // holes filled before the one that is refused stay filled
                    std::string v = validate(*m);
                    if (!v.empty()) sim::violation("invalid-mesh", "after a refused filling: %s", v.c_str());
                } else {
                    std::string d = diff(before, snap(*m), D_ALL | D_PTR);
                    if (!d.empty()) sim::violation("half-filled", "the advancing front gave up (%s) and left the mesh changed: %s", c.what.c_str(), d.c_str());
                }
            }
            continue;
        }
        if (!judge) continue;
        sim::checked();
        std::string v = validate(*m);
        if (!v.empty()) sim::violation("invalid-mesh", "after %s: %s", op.name.c_str(), v.c_str());
        Topo b = topology(*m);
        int closed = all ? a.loops : 1;
        if (b.loops != a.loops - closed || b.comps != a.comps || b.chi != a.chi + closed)
            sim::violation("hole-not-closed", "%s: boundary loops %d to %d, components %d to %d, Euler characteristic %d to %d", op.name.c_str(), a.loops, b.loops, a.comps, b.comps, a.chi, b.chi);
        std::set<std::vector<const Vertex *>> left;
        for (auto g : holes(*m)) left.insert(loop_of(g));
        if (left != others) sim::violation("other-hole-touched", "%s changed a hole it was not asked to fill", op.name.c_str());
        std::set<const Vertex *> now;
        for (size_t i = 0; i < m->numVertices(); i++) now.insert(m->vertex((int)i));
        for (size_t i = 0; i < before.vp.size(); i++) {
            if (!now.count(before.vp[i])) sim::violation("original-vertex-lost", "%s removed original vertex %zu", op.name.c_str(), i);
            for (int k = 0; k < 3; k++)
                if (before.vp[i]->pos()[k] != before.pos[i][k]) sim::violation("original-vertex-moved", "%s moved original vertex %zu", op.name.c_str(), i);
        }
        auto tn = triangle_ptrs(*m);
        for (auto &t : tris)
            if (!tn.count(t)) sim::violation("original-face-lost", "%s removed or changed an original face", op.name.c_str());
        if (op.name != "filladv" && b.V != a.V) sim::violation("vertex-added", "%s changed the number of vertices from %d to %d", op.name.c_str(), a.V, b.V);
        sim::probe(op.name == "filladv" ? "filled_by_front" : "filled_by_dihedral", (uint64_t)closed);
        if (op.name == "filladv" && b.V != a.V) sim::probe("front_vertices", (uint64_t)(b.V - a.V));
    }
    (void)cursor;
    Bytes out;
    out.mesh(*m);
    if (judge) sim::shape(digest(*m));
    destroy(m);
    return out.b;
}
static std::vector<unsigned char> c10_order(const Plan &p, bool reverse) {
    // all holes one by one by minimum dihedral, in one order or the other; faces by original numbers
    Mesh *m = build(make_trimesh(p.meshes.empty() ? Op{} : p.meshes[0]));
    auto hs = holes(*m);
    if (reverse) std::reverse(hs.begin(), hs.end());
    Bytes out;
    for (auto f : hs) {
        if (!fillable(f)) continue;
        Called c = call([&] { holeFillMinDihedral(*m, f, Pi); });
        if (!c.ok()) out.u64(1);
    }
    auto t = triangles(*m);
    std::sort(t.begin(), t.end());
    for (auto &x : t)
        for (int k : x) out.u64((uint64_t)k);
    destroy(m);
    return out.b;
}
static void c10_exec(const Plan &p) {
    sim::Config rc = p.config();
    rc.reuse = (rc.reuse + 1) % 4;
    rc.order = (rc.order + 1) % 3;
    rc.fill = (rc.fill + 2) % 5;
    rc.gap = (rc.gap + 3) % 8;
    rc.hseed ^= 0x55;
    bool failed = false, rfailed = false;
    RefResult ref = run_reference(rc, [&] {
        std::vector<unsigned char> b = c10_program(p, false, rfailed);
        b.push_back(rfailed);
        return b;
    });
    if (!ref.done) sim::violation(ref.cls.c_str(), "with another memory layout: %s", ref.msg.c_str());
    if (p.idx % 3 == 0) {
        // references run before anything else happens in this process
        RefResult o1 = run_reference(p.config(), [&] { return c10_order(p, true); });
        if (!o1.done) sim::violation(o1.cls.c_str(), "filling all holes in reverse order: %s", o1.msg.c_str());
        RefResult o2 = run_reference(p.config(), [&] { return c10_order(p, false); });
        if (!o2.done) sim::violation(o2.cls.c_str(), "filling all holes in order: %s", o2.msg.c_str());
        sim::checked();
        if (o1.bytes != o2.bytes) sim::violation("order-dependent", "filling the holes in reverse order gives other faces");
    }
    std::vector<unsigned char> got = c10_program(p, true, failed);
    got.push_back(failed);
    sim::checked();
    if (got.back() != ref.bytes.back()) sim::violation("address-dependent", "filling %s here but not with another memory layout", failed ? "fails" : "succeeds");
    if (got != ref.bytes) sim::violation("address-dependent", "the filled surface differs with another memory layout");
    sample(p, "");
}

// ---------------------------------------------------------------- C11
// The descriptor needs 300 eigenvalues, so no mesh with fewer vertices can be completed.
static void c11_gen(Plan &p, Rng &r) {
    int k = r.range(0, 3);
    double seed = (double)r.below(1000000), jit = (double)(r.chance(0.5) ? r.range(10, 120) : r.range(100, 450));
    double holes = r.range(1, 2), size = r.chance(0.25) ? r.range(5, 12) : r.range(1, 4);
    if (k == 0) p.meshes.push_back(Op{"", {0, (double)r.range(21, 23), 15, 0, holes, size, jit, seed}});
    else if (k == 1) p.meshes.push_back(Op{"", {8, 8, 8, 0, holes, size, jit, seed}});
    else if (k == 2) p.meshes.push_back(Op{"", {4, (double)r.range(8, 9), (double)r.range(38, 40), 0, (double)r.range(0, 1), size, jit, seed}});
    else p.meshes.push_back(Op{"", {0, 21, 15, (double)r.range(1, 12), holes, size, jit, seed}});
    gen_heap(p, r);
    gen_sched(p, r, 5);
    gen_clock(p, r);
    if (r.chance(0.7)) p.cfg["vary"] = 0;
    p.cfg["cap"] = 9000000000;
    int x = r.range(0, 99);
    p.op("complete", {(double)(x < 60 ? r.range(1, 2) : x < 85 ? r.range(3, 8) : r.range(9, 20))});
    if (x >= 60 && r.chance(0.6)) p.cfg["reuse"] = r.range(1, 3);
    // less usual starting points: nothing to close, no refinement, an edited mesh, a completed one
    if (r.chance(0.08) && k != 2) p.meshes[0].a[4] = 0;
    if (r.chance(0.06)) p.ops[0].a[0] = 0;
    if (r.chance(0.2)) {
        std::vector<Op> edits;
        int n = r.range(1, 6);
        for (int i = 0; i < n; i++) edits.push_back(Op{r.chance(0.5) ? "split" : "flip", {(double)r.below(100000)}});
        p.ops.insert(p.ops.begin(), edits.begin(), edits.end());
    }
    if (x < 60 && r.chance(0.2)) p.op("complete", {(double)r.range(0, 1)});
}
static std::vector<unsigned char> c11_program(const Plan &p, bool judge, bool &failed) {
    Mesh *m = build(make_trimesh(p.meshes.empty() ? Op{} : p.meshes[0]));
    failed = false;
    Bytes out;
    for (auto &op : p.ops) {
        if (op.name == "split" || op.name == "flip") {
            Called e;
            if (mutate(*m, op, e) && judge) sim::probe("edited_before_completion");
            continue;
        }
        if (op.name != "complete") continue;
        Snap before = snap(*m);
        Topo a = topology(*m);
        Called c = call([&] { holeFillContextCoherent(*m, op.iarg(0, 1)); });
        if (!c.ok()) {
            failed = true;
            out.str(c.what);
            if (judge) sim::probe("completion_refused");
            break;
        }
        if (!judge) continue;
        sim::checked();
        std::string v = validate(*m, false);
        if (!v.empty()) sim::violation("invalid-mesh", "after completion: %s", v.c_str());
        Topo b = topology(*m);
        if (b.loops != 0 || b.comps != a.comps || b.chi != a.chi + a.loops)
            sim::violation("hole-not-closed", "completion: boundary loops %d to %d, components %d to %d, Euler characteristic %d to %d", a.loops, b.loops, a.comps, b.comps, a.chi, b.chi);
        std::set<const Vertex *> now;
        for (size_t i = 0; i < m->numVertices(); i++) now.insert(m->vertex((int)i));
        for (size_t i = 0; i < before.vp.size(); i++) {
            if (!now.count(before.vp[i])) sim::violation("original-vertex-lost", "completion removed original vertex %zu", i);
            for (int k = 0; k < 3; k++)
                if (before.vp[i]->pos()[k] != before.pos[i][k]) sim::violation("original-vertex-moved", "completion moved original vertex %zu", i);
        }
        sim::probe("completed");
        if (b.V > a.V) sim::probe("vertices_added", (uint64_t)(b.V - a.V));
    }
    out.mesh(*m);
    if (judge) sim::shape(digest(*m));
    destroy(m);
    return out.b;
}
static void c11_exec(const Plan &p) {
    sim::Config rc = p.config();
    rc.threads = 1;
    rc.vary = 0;
    rc.policy = sim::P_SEQ;
    rc.clock = 0;
    rc.reuse = (rc.reuse + 1) % 4;
    rc.order = (rc.order + 1) % 3;
    rc.fill = (rc.fill + 2) % 5;
    rc.gap = (rc.gap + 3) % 8;
    rc.hseed ^= 0x55;
    bool failed = false, rfailed = false;
    RefResult ref = run_reference(rc, [&] {
        std::vector<unsigned char> b = c11_program(p, false, rfailed);
        b.push_back(rfailed);
        return b;
    });
    if (!ref.done) sim::violation(ref.cls.c_str(), "with one thread: %s", ref.msg.c_str());
    std::vector<unsigned char> got = c11_program(p, true, failed);
    got.push_back(failed);
    sim::checked();
    if (got.back() != ref.bytes.back()) sim::violation("schedule-dependent", "completion %s here but not with one thread, a plain clock and another memory layout", failed ? "fails" : "succeeds");
    if (got != ref.bytes) sim::violation("schedule-dependent", "the completed surface differs from the one obtained with one thread, a plain clock and another memory layout");
    sample(p, "");
}

extern const PropDef edit_props[] = {
    {"C06", "both", c06_gen, c06_exec}, {"C07", "native", c07_gen, c07_exec}, {"C08", "native", c08_gen, c08_exec},
    {"C09", "native", c09_gen, c09_exec}, {"C10", "both", c10_gen, c10_exec}, {"C11", "fast", c11_gen, c11_exec},
};
extern const int edit_count = 6;
}  // namespace wl
