// C01-C05: parallel filters, concurrent callers, errors inside parallel work.
#include <algorithm>
#include <cstring>

#include "common.h"
#include "filters/filters.h"

using namespace tinymesh;

namespace wl {

// ---------------------------------------------------------------- shared pieces
static bool all_triangles(const Mesh &m) {
    for (int i = 0; i < (int)m.numFaces(); i++) {
        Halfedge *h = m.face(i)->he_begin().ptr();
        if (h->next()->next()->next() != h) return false;
    }
    return true;
}
static bool is_normal_filter(const std::string &n) { return n == "gauss" || n == "bilat"; }
static Op gen_filter(Rng &r, bool normal, bool linear) {
    int k = r.range(0, normal ? (linear ? 5 : 3) : 1);
    int more = r.chance(0.15) ? r.range(1, 5) : 0;  // further iterations
    double s = r.chance(0.2) ? 1.0 : 0.05 + 0.9 * r.unit();
    switch (k) {
    case 0: return Op{"lap", {s, (double)r.below(2), (double)(r.range(1, 3) + more)}};
    case 1: return Op{"taubin", {0.1 + 0.6 * r.unit(), 0.1 + 0.6 * r.unit(), (double)(r.range(1, 2) + more)}};
    case 2: return Op{"gauss", {0.1 + r.unit(), (double)(r.range(1, 2) + more)}};
    case 3: return Op{"bilat", {0.1 + r.unit(), 0.05 + r.unit(), (double)(r.range(1, 2) + more)}};
    case 4: return Op{"fairing", {0.01 + r.unit(), 1}};
    default: return Op{"l0", {0.1, 0.5 + r.unit()}};
    }
}
static void gen_locks(Plan &p, Rng &r) {
    int n = r.chance(0.05) ? r.range(7, 40) : r.range(0, 6);
    for (int i = 0; i < n; i++) p.op("lock", {(double)r.below(100000)});
}

static bool is_edit(const std::string &n) { return n == "split" || n == "collapse" || n == "flip" || n == "fillmin"; }
static void gen_edits(Plan &p, Rng &r, double chance) {
    if (!r.chance(chance)) return;
    int n = r.chance(0.1) ? r.range(9, 40) : r.range(1, 8);
    for (int i = 0; i < n; i++) {
        const char *k[] = {"split", "collapse", "flip", "fillmin"};
        p.op(k[r.chance(0.04) ? 3 : r.below(3)], {(double)r.below(100000)});
    }
}

// ---------------------------------------------------------------- C01
static void c01_gen(Plan &p, Rng &r) {
    bool large = r.chance(0.08);
    p.meshes.push_back(gen_mesh(r, MF_ANY | (large ? (r.chance(0.3) ? MF_HUGE : MF_BIG) : r.chance(0.7) ? MF_SMALL : 0)));
    gen_heap(p, r);
    gen_sched(p, r, 8);
    gen_edits(p, r, 0.3);
    gen_locks(p, r);
    int n = large ? 1 : r.range(1, 3);
    for (int i = 0; i < n; i++) {
        if (i) gen_edits(p, r, 0.15);
        p.ops.push_back(gen_filter(r, true, false));
        if (r.chance(0.2)) gen_locks(p, r);
    }
}
// a filter may refuse degenerate geometry; then it has to do so with every schedule
static Mesh *c01_program(const Plan &p, std::string &refused) {
    Mesh *m = build(make_trimesh(p.meshes.empty() ? Op{} : p.meshes[0]));
    bool tri = all_triangles(*m);
    for (auto &op : p.ops) {
        if (is_normal_filter(op.name) && !tri) {
            sim::probe("skipped_non_triangular");
            continue;
        }
        Called c;
        if (!mutate(*m, op, c)) continue;
        if (is_edit(op.name)) {
            tri = all_triangles(*m);
            continue;
        }
        if (!c.ok()) {
            refused = op.name + ": " + c.what;
            sim::probe("filter_refused");
            break;
        }
    }
    return m;
}
static void c01_exec(const Plan &p) {
    sim::Config rc = p.config();
    rc.threads = 1;
    rc.vary = 0;
    rc.policy = sim::P_SEQ;
    RefResult ref = run_reference(rc, [&] {
        Bytes b;
        std::string refused;
        Mesh *m = c01_program(p, refused);
        b.str(refused);
        if (refused.empty()) b.mesh(*m);
        return b.b;
    });
    if (!ref.done) sim::violation(ref.cls.c_str(), "with one thread: %s", ref.msg.c_str());
    std::string refused;
    Mesh *m = c01_program(p, refused);
    sim::checked();
    Bytes b;
    b.str(refused);
    if (refused.empty()) b.mesh(*m);
    sim::shape(digest(*m));
    sample(p, fmt("threads=%lld switches=%llu", (long long)p.c("threads", 1), (unsigned long long)sim::g.res->switches));
    if (b.b != ref.bytes) {
        Bytes rb;
        rb.b = ref.bytes;
        size_t rn = rb.ru64();
        if (rn || !refused.empty())
            sim::violation("schedule-dependent", "with one thread: %s; with %d threads: %s", rn ? std::string(rb.b.begin() + 8, rb.b.begin() + 8 + (long)rn).c_str() : "no error",
                           sim::g.cfg.threads, refused.empty() ? "no error" : refused.c_str());
        size_t i = 0;
        while (i < b.b.size() && i < ref.bytes.size() && b.b[i] == ref.bytes[i]) i++;
        long v = (long)(i / 8) - 4;
        sim::violation("schedule-dependent", "result differs from the one-thread result first at %s %ld (%d threads)",
                       v < 0 ? "element counts," : "vertex", v < 0 ? 0 : v / 3, sim::g.cfg.threads);
    }
    destroy(m);
}

// ---------------------------------------------------------------- C02
static void c02_gen(Plan &p, Rng &r) {
    p.meshes.push_back(gen_mesh(r, (r.chance(0.65) ? MF_OPEN : MF_CLOSED) | (r.chance(0.03) ? MF_BIG : r.chance(0.6) ? MF_SMALL : 0)));
    gen_heap(p, r);
    gen_sched(p, r, 8);
    gen_edits(p, r, 0.4);
    gen_locks(p, r);
    int n = r.range(1, 4);
    for (int i = 0; i < n; i++) {
        if (i) gen_edits(p, r, 0.15);
        p.ops.push_back(gen_filter(r, true, true));
        if (r.chance(0.4)) gen_locks(p, r);
        if (r.chance(0.3)) p.op("unlock", {(double)r.below(100000)});
        if (r.chance(0.2)) p.op("move", {(double)r.below(100000), r.unit() * 0.1, r.unit() * 0.1, r.unit() * 0.1});
        if (r.chance(0.15)) p.op("reverse");
    }
}
struct Pin {
    uintptr_t a;
    double v[3];
    int idx;
};
static Pin pins[4096];
static int npins;
static const Pin *pin_hit[sim::MAXT];
static int npin_hit;
static const char *pin_op;
static void pin_after() {
    for (int i = 0; i < npin_hit; i++)
        if (memcmp((void *)pin_hit[i]->a, pin_hit[i]->v, 24) != 0)
            sim::violation("pinned-moved", "%s moved vertex %d, which is locked or on the boundary", pin_op, pin_hit[i]->idx);
    npin_hit = 0;
}
static void pin_cb(uintptr_t a, unsigned n, void *) {
    int lo = 0, hi = npins;
    while (lo < hi) {
        int mid = (lo + hi) / 2;
        if (pins[mid].a + 24 <= a) lo = mid + 1;
        else hi = mid;
    }
    if (lo < npins && pins[lo].a < a + n) {
        if (npin_hit == sim::MAXT) pin_after();
        pin_hit[npin_hit++] = &pins[lo];
        sim::g.watch_after = pin_after;
    }
}
static size_t pos_offset() {
    // where inside a vertex the position is stored
    static size_t off = (size_t)-1;
    if (off != (size_t)-1) return off;
    Vertex v(Vec3(1.25, 2.5, 5.125));
    double want[3] = {1.25, 2.5, 5.125};
    for (size_t i = 0; i + 24 <= sizeof(Vertex); i += 8)
        if (!memcmp((char *)&v + i, want, 24)) return off = i;
    return off = (size_t)-2;  // stored elsewhere: positions are compared after the call only
}
static void c02_exec(const Plan &p) {
    Mesh *m = build(make_trimesh(p.meshes.empty() ? Op{} : p.meshes[0]));
    bool tri = false;
    std::vector<char> onb;
    auto look = [&] {
        tri = all_triangles(*m);
        // which vertices are on a boundary, from the loops themselves
        onb.assign(m->numVertices(), 0);
        for (auto f : holes(*m)) {
            Halfedge *h = f->he_begin().ptr(), *h0 = h;
            do {
                onb[h->src()->index()] = 1;
                h = h->next();
            } while (h != h0);
        }
    };
    look();
    size_t off = pos_offset();
    for (auto &op : p.ops) {
        if (is_edit(op.name)) {
            Called c;
            mutate(*m, op, c);
            if (!validate(*m, false).empty()) {
                sim::probe("edit_broke_mesh");
                sim::finish_ok();
            }
            look();
            continue;
        }
        if (is_normal_filter(op.name) && !tri) continue;
        if (op.name == "l0" && m->numVertices() > 80) continue;  // its solver takes too long there
        Snap before = snap(*m);
        bool pinning = op.name == "lap" || op.name == "taubin";
        pin_op = op.name == "lap" ? "Laplacian smoothing" : "Taubin smoothing";
        npins = 0;
        npin_hit = 0;
        if (pinning && off != (size_t)-2) {
            for (size_t i = 0; i < m->numVertices() && npins < 4096; i++)
                if (onb[i] || before.locked[i]) {
                    Pin q;
                    q.a = (uintptr_t)before.vp[i] + off;
                    for (int k = 0; k < 3; k++) q.v[k] = before.pos[i][k];
                    q.idx = (int)i;
                    pins[npins++] = q;
                }
            std::sort(pins, pins + npins, [](const Pin &a, const Pin &b) { return a.a < b.a; });
            sim::g.watch_lo = 1;
            sim::g.watch_hi = UINTPTR_MAX;
            sim::g.watch_cb = pin_cb;
            sim::probe("pinned_vertices", (uint64_t)npins);
        }
        Called c;
        bool known = mutate(*m, op, c);
        sim::g.watch_cb = nullptr;
        sim::g.watch_after = nullptr;
        if (!known) continue;
        if (npin_hit) pin_after();
        if (!c.ok()) sim::probe("filter_refused");
        if (op.name == "lock" || op.name == "unlock" || op.name == "move") continue;
        Snap after = snap(*m);
        std::string d = diff(before, after, D_CONN | D_LOCK | D_BND | D_PTR);
        sim::checked();
        if (!d.empty()) sim::violation("connectivity-changed", "%s changed more than positions: %s", op.name.c_str(), d.c_str());
        if (pinning)
            for (size_t i = 0; i < before.pos.size(); i++)
                if (onb[i] || before.locked[i]) {
                    sim::checked();
                    for (int k = 0; k < 3; k++)
                        if (memcmp(&before.pos[i][k], &after.pos[i][k], 8) != 0)
                            sim::violation("pinned-moved", "%s moved vertex %zu, which is locked or on the boundary", pin_op, i);
                }
        std::string v = validate(*m, false);
        if (!v.empty()) sim::violation("invalid-mesh", "after %s: %s", op.name.c_str(), v.c_str());
    }
    sim::shape(digest(*m));
    sample(p, fmt("pinned=%d", npins));
    destroy(m);
}

// ---------------------------------------------------------------- C03
static int op_caller(const Op &o) { return o.name.size() > 2 && o.name[1] == '.' ? o.name[0] - '0' : -1; }
static Op op_strip(const Op &o) { return Op{o.name.substr(2), o.a}; }

static Op gen_query(Rng &r, bool open, bool heavy, int kind = -1) {
    int k = kind >= 0 ? kind : r.range(0, heavy ? 15 : 11);
    double i = (double)r.below(100000);
    switch (k) {
    case 0: return Op{"counts", {}};
    case 1: return Op{"stats", {}};
    case 2: return r.chance(0.5) ? Op{"verts", {i}} : Op{"around", {i, r.unit(), r.unit(), r.unit()}};
    case 3: return Op{"faces", {i}};
    case 4: return Op{"edges", {i}};
    case 5: return r.chance(0.5) ? Op{"export", {}} : Op{"write", {(double)r.below(2)}};
    case 6: return Op{"verify", {}};
    case 7: return Op{"laplace", {(double)r.below(3)}};
    case 8: return Op{"clone", {}};
    case 9: return Op{"near", {3 * r.unit() - 1.5, 3 * r.unit() - 1.5, 3 * r.unit() - 1.5}};
    case 10: return Op{"dist", {(double)r.below(2)}};
    case 11: return Op{"hausdorff", {(double)r.below(2)}};
    case 12: return open ? Op{"stats", {}} : Op{"curv", {(double)r.below(2)}};
    case 13: return open ? Op{"bvh", {r.unit(), r.unit(), r.unit()}} : Op{"feature", {(double)r.below(2), (double)r.below(2)}};
    case 14: return open ? Op{"verify", {}} : Op{"hks", {8, 3}};
    default: return open ? Op{"laplace", {0}} : Op{"curvd", {(double)r.below(2)}};
    }
}
static void c03_gen(Plan &p, Rng &r) {
    bool open = r.chance(0.4);
    bool heavy = r.chance(0.35);
    p.meshes.push_back(gen_mesh(r, (open ? MF_OPEN : MF_CLOSED) | MF_SMALL));
    gen_heap(p, r);
    gen_sched(p, r, 3);
    int n = r.range(2, 4);
    // often every caller asks the same kind of question at some point
    int same = r.chance(0.4) ? r.range(0, heavy ? 15 : 11) : -1;
    for (int c = 0; c < n; c++) {
        int k = r.range(1, 4), at = r.range(0, k - 1);
        for (int i = 0; i < k; i++) {
            Op q = gen_query(r, open, heavy, i == at ? same : -1);
            q.name = std::string(1, (char)('0' + c)) + "." + q.name;
            p.ops.push_back(q);
        }
    }
}
struct C03Caller {
    int id;
    const Mesh *m;
    const BVH *bvh;
    std::vector<Op> ops;
    std::vector<std::vector<unsigned char>> out;
};
static std::vector<unsigned char> c03_query(const Mesh &m, const BVH &bvh, const Op &op, int who) {
    Bytes b;
    if (op.name == "write") {
        // every caller has its own file
        std::string path = fmt("/simdisk/q%d.%s", who, op.iarg(0) ? "ply" : "obj");
        Called c = call([&] { m.save(path); });
        const unsigned char *d;
        size_t n;
        if (sim::disk_get(path.c_str(), &d, &n)) b.str(std::string((const char *)d, n));
        b.u64((uint64_t)c.end);
        return b.b;
    }
    if (op.name == "near") {
        Vec3 q(op.arg(0), op.arg(1), op.arg(2)), at(0.0);
        double d = 0;
        Called c = call([&] { at = bvh.closestPoint(q); d = bvh.distance(q); });
        for (int k = 0; k < 3; k++) b.d(at[k]);
        b.d(d);
        b.u64((uint64_t)c.end);
    } else {
        query(m, op, b);
    }
    return b.b;
}
static void c03_caller(void *a) {
    C03Caller *c = (C03Caller *)a;
    for (auto &op : c->ops) {
        sim::yield_point();
        c->out.push_back(c03_query(*c->m, *c->bvh, op, c->id));
    }
}
static void c03_exec(const Plan &p) {
    TriMesh t = make_trimesh(p.meshes.empty() ? Op{} : p.meshes[0]);
    bool near = false;
    for (auto &op : p.ops) near |= op.name.size() > 2 && op.name.substr(2) == "near";
    // building the search structure reads the mesh: it is one of the read-only operations
    auto setup = [&](Mesh *&m, BVH *&b, Snap *s) {
        m = build(t);
        if (s) *s = snap(*m);
        must("building the search structure", [&] { b = near ? new BVH(*m) : new BVH(); });
    };
    sim::Config rc = p.config();
    rc.threads = 1;
    rc.vary = 0;
    rc.policy = sim::P_SEQ;
    RefResult ref = run_reference(rc, [&] {
        Mesh *m;
        BVH *b;
        setup(m, b, nullptr);
        Bytes all;
        for (auto &op : p.ops) {
            if (op_caller(op) < 0) continue;
            auto x = c03_query(*m, *b, op_strip(op), op_caller(op));
            all.str(std::string(x.begin(), x.end()));
        }
        return all.b;
    });
    if (!ref.done) sim::violation(ref.cls.c_str(), "query run alone: %s", ref.msg.c_str());
    Mesh *m;
    BVH *b;
    Snap before;
    setup(m, b, &before);
    C03Caller callers[4];
    std::vector<std::pair<int, int>> where;
    for (auto &op : p.ops) {
        int k = op_caller(op);
        if (k < 0 || k > 3) continue;
        where.push_back({k, (int)callers[k].ops.size()});
        callers[k].ops.push_back(op_strip(op));
    }
    void *args[4];
    int n = 0;
    for (auto &c : callers) {
        c.id = (int)(&c - callers);
        c.m = m;
        c.bvh = b;
        if (!c.ops.empty()) args[n++] = &c;
    }
    sim::probe("callers", (uint64_t)n);
    sim::run_callers(n, c03_caller, args);
    std::string d = diff(before, snap(*m), D_ALL | D_PTR);
    sim::checked();
    if (!d.empty()) sim::violation("query-changed-mesh", "read-only operations changed the mesh: %s", d.c_str());
    Bytes rb;
    rb.b = ref.bytes;
    for (size_t i = 0; i < where.size(); i++) {
        size_t len = rb.ru64();
        auto &got = callers[where[i].first].out[where[i].second];
        sim::checked();
        if (got.size() != len || memcmp(got.data(), rb.b.data() + rb.pos, len) != 0)
            sim::violation("query-differs", "%s of caller %d gave another result than when run alone: %s",
                           callers[where[i].first].ops[where[i].second].name.c_str(), where[i].first, rb.where(got, rb.pos, len).c_str());
        rb.pos += len;
        for (auto c : got) sim::hash_in(c);
    }
    sim::shape(digest(*m));
    sample(p, fmt("callers=%d switches=%llu", n, (unsigned long long)sim::g.res->switches));
}

// ---------------------------------------------------------------- C04
static Op c04_op(Rng &r, int kind) {
    Op q;
    switch (kind) {
    case 0: return gen_filter(r, true, r.chance(0.3));
    case 1: return Op{"split", {(double)r.below(100000)}};
    case 2: return Op{"collapse", {(double)r.below(100000)}};
    case 3: return Op{"flip", {(double)r.below(100000)}};
    case 4: return Op{"remesh", {0.6 + 0.3 * r.unit(), 1.2 + 0.4 * r.unit(), r.chance(0.5) ? 0.0 : r.unit(), 1, (double)r.below(2)}};
    case 5: return Op{"simplify", {0.3 + 0.6 * r.unit(), 2, (double)r.below(2)}};
    case 6: return Op{"fillmin", {(double)r.below(10)}};
    case 7: return Op{"fillholes", {}};
    case 8: return Op{"save", {(double)r.below(2)}};
    case 9: return Op{r.chance(0.3) ? "open" : "load", {(double)r.below(2)}};
    case 10: q = gen_query(r, true, false); break;
    case 11: return Op{"rebuild", {}};
    case 12: return r.chance(0.4) ? Op{"filladv", {(double)r.below(10)}} : Op{"fillmin", {(double)r.below(10)}};
    case 13: return Op{"cface", {(double)r.below(100000)}};
    default: q = gen_query(r, false, true); break;
    }
    if (q.name == "near") q.name = "stats";
    if (q.name == "write") q.name = "save";
    return q;
}
static void c04_gen(Plan &p, Rng &r) {
    gen_heap(p, r);
    gen_sched(p, r, 3);
    if (std::string(VARIANT) == "fast") {
        // two callers complete their meshes
        p.cfg["cap"] = 9000000000;
        for (int c = 0; c < 2; c++) {
            p.meshes.push_back(gen_context_mesh(r));
            if (r.chance(0.3)) p.op(c ? "1.split" : "0.split", {(double)r.below(100000)});
            p.op(c ? "1.complete" : "0.complete", {r.chance(0.2) ? 2.0 : 1.0});
        }
        return;
    }
    int n = r.range(2, 4);
    int same = r.chance(0.5) ? r.range(0, 14) : -1;
    for (int c = 0; c < n; c++) {
        Op ms = gen_mesh(r, MF_ANY | MF_SMALL);
        p.meshes.push_back(ms);
        int k = r.range(1, 4), at = r.range(0, k - 1);
        for (int i = 0; i < k; i++) {
            // often every caller does the same kind of work at some point
            Op q = c04_op(r, same >= 0 && i == at ? same : r.range(0, 14));
            q.name = std::string(1, (char)('0' + c)) + "." + q.name;
            p.ops.push_back(q);
        }
    }
}
struct C04Caller {
    int id;
    TriMesh t;
    std::vector<Op> ops;
    Bytes out;
};
static void c04_program(C04Caller *c) {
    sim::set_stream(c->id + 1);
    Mesh *m = build(c->t);
    std::string path[2] = {fmt("/simdisk/c%d.obj", c->id), fmt("/simdisk/c%d.ply", c->id)};
    bool saved[2] = {false, false};
    for (auto &op : c->ops) {
        sim::yield_point();
        Called r;
        if (op.name == "save") {
            saved[op.iarg(0) & 1] = true;
            r = call([&] { m->save(path[op.iarg(0) & 1]); });
        } else if (op.name == "load" || op.name == "open") {
            int k = op.iarg(0) & 1;
            if (!saved[k]) {
                saved[k] = true;
                r = call([&] { m->save(path[k]); });
            }
            if (op.name == "load") {
                r = call([&] { m->load(path[k]); });
            } else {
                Mesh *n = nullptr;
                r = call([&] { n = new Mesh(path[k]); });
                if (n) {
                    destroy(m);
                    m = n;
                }
            }
        } else if (op.name == "rebuild") {
            Mesh *n = nullptr;
            r = call([&] { n = new Mesh(m->getVertices(), m->getVertexIndices()); });
            if (n) {
                destroy(m);
                m = n;
            }
        } else if (is_normal_filter(op.name) && !all_triangles(*m)) {
            continue;
        } else if ((op.name == "l0" && m->numVertices() > 60) || (op.name == "filladv" && (m->numVertices() > 60 || widest(*m) > 14))) {
            continue;  // they take too long there
        } else if (!mutate(*m, op, r)) {
            query(*m, op, c->out);
        }
        c->out.u64((uint64_t)r.end);
        c->out.str(r.what);
    }
    c->out.mesh(*m);
    for (auto &f : path) {
        const unsigned char *d;
        size_t n;
        if (sim::disk_get(f.c_str(), &d, &n)) c->out.str(std::string((const char *)d, n));
    }
    destroy(m);
}
static void c04_main(void *a) { c04_program((C04Caller *)a); }
static void c04_exec(const Plan &p) {
    C04Caller cs[4];
    for (int i = 0; i < 4; i++) {
        cs[i].id = i;
        cs[i].t = make_trimesh(i < (int)p.meshes.size() ? p.meshes[i] : Op{});
    }
    for (auto &op : p.ops) {
        int k = op_caller(op);
        if (k >= 0 && k < 4) cs[k].ops.push_back(op_strip(op));
    }
    std::vector<RefResult> refs;
    sim::Config rc = p.config();
    rc.policy = sim::P_SEQ;
    rc.threads = 1;
    rc.vary = 0;
    for (int i = 0; i < 4; i++) {
        refs.push_back(RefResult());
        if (cs[i].ops.empty()) continue;
        refs.back() = run_reference(rc, [&] {
            c04_program(&cs[i]);
            return cs[i].out.b;
        });
        if (!refs.back().done) {
            if (refs.back().cls == "terminate" || refs.back().cls == "abort") {
                // the library refuses this program even when nobody else runs: nothing to compare
                sim::probe("solo_program_refused");
                sim::finish_ok();
            }
            sim::violation(refs.back().cls.c_str(), "program run alone: %s", refs.back().msg.c_str());
        }
    }
    void *args[4];
    int n = 0;
    for (auto &c : cs)
        if (!c.ops.empty()) args[n++] = &c;
    sim::probe("callers", (uint64_t)n);
    sim::run_callers(n, c04_main, args);
    for (int i = 0; i < 4; i++) {
        if (cs[i].ops.empty()) continue;
        sim::checked();
        for (auto ch : cs[i].out.b) sim::hash_in(ch);
        if (cs[i].out.b != refs[i].bytes)
            sim::violation("interference", "caller %d got another result than when running alone", i);
        uint64_t h = 0;
        for (auto ch : cs[i].out.b) h = h * 131 + ch;
        sim::shape(h);
    }
    sample(p, fmt("callers=%d switches=%llu", n, (unsigned long long)sim::g.res->switches));
}

// ---------------------------------------------------------------- C05
static void c05_gen(Plan &p, Rng &r) {
    gen_heap(p, r);
    gen_sched(p, r, 8);
    int what = r.range(0, 4);
    p.meshes.push_back(gen_mesh(r, (what == 1 ? MF_OPEN : what == 0 ? MF_CLOSED : MF_ANY) | MF_SMALL));
    p.ops.push_back(gen_filter(r, what <= 1 || r.chance(0.5), false));
    // long smoothing can shrink a small mesh until it has to be refused
    p.ops[0].a.back() = std::min(p.ops[0].a.back(), 3.0);
    if (what == 0) {
        // a face without area: two corners at the same place
        p.ops[0] = r.chance(0.5) ? Op{"gauss", {0.5, 1}} : Op{"bilat", {0.5, 0.5, 1}};
        p.fault("degenerate", {(double)r.below(100000)});
        if (r.chance(0.3)) p.fault("degenerate", {(double)r.below(100000)});
    } else if (what == 1) {
        p.ops[0] = r.chance(0.5) ? Op{"gauss", {0.5, 1}} : Op{"bilat", {0.5, 0.5, 1}};
    } else if (what == 2) {
        p.fault("alloc", {(double)(1 + r.below(60)), 0});
    } else if (what == 3) {
        p.fault("alloc", {(double)(1 + r.below(400)), (double)r.below(2)});
    } else {
        p.ops[0] = Op{"lap", {0.5, 1, 1}};
        p.fault("zerosum", {(double)r.below(100000)});
    }
}
static bool c05_expected_terminate;
static void c05_on_terminate(int how, const char *what) {
    if (how == 0 && c05_expected_terminate) {
        // native error mode: report and stop
        sim::probe("native_error_report");
        sim::checked();
        sim::finish_ok();
    }
    if (how == 1)
        sim::violation("error-not-delivered", "an error inside parallel work ended the process instead of reaching the caller (%s)", what);
    if (how == 0)
        sim::violation("error-not-delivered", "an error inside parallel work ended the process instead of reaching the caller");
}
// all vertices on one line: every cross product vanishes exactly, whatever smoothing came before
static void flatten(TriMesh &t) {
    for (auto &q : t.pos) q = Vec3(q[0] * 4.0, 0.0, 0.0);
}
static void c05_exec(const Plan &p) {
    bool py = std::string(VARIANT) == "py";
    TriMesh t = make_trimesh(p.meshes.empty() ? Op{} : p.meshes[0]);
    Mesh *m = build(t);
    bool tri = all_triangles(*m);
    bool bad_face = !tri, degenerate = false;
    uint64_t afail = 0;
    bool apersist = false;
    for (auto &f : p.faults) {
        if (f.name == "degenerate") degenerate = true;
        if (f.name == "alloc") {
            afail = (uint64_t)f.arg(0, 1);
            apersist = f.arg(1) != 0;
        }
        if (f.name == "zerosum") {
            // a vertex all of whose neighbours coincide with it: the weights cannot be formed
            Vertex *v = m->vertex((int)((uint64_t)f.arg(0) % m->numVertices()));
            Halfedge *h = v->he_begin().ptr(), *h0 = h;
            do {
                h->dst()->setPos(v->pos());
                h = h->rev()->next();
            } while (h != h0);
            degenerate = true;
        }
    }
    const Op op = p.ops.empty() ? Op{"gauss", {0.5, 1}} : p.ops[0];
    // a vertex whose neighbours all have weight zero has no weighted mean
    bool no_mean = false;
    if (op.name == "lap" && op.iarg(1))
        for (int i = 0; i < (int)m->numVertices() && !no_mean; i++) {
            Halfedge *h = m->vertex(i)->he_begin().ptr(), *h0 = h;
            no_mean = true;
            do {
                no_mean &= h->cotWeight() == 0.0;
                h = h->rev()->next();
            } while (h != h0);
        }
    std::vector<int> bad;
    for (auto &f : p.faults)
        if (f.name == "degenerate") bad.push_back((int)((uint64_t)f.arg(0) % m->numFaces()));
    if (!bad.empty()) {
        // pin every vertex so that the smoothing step keeps the damage in place
        for (int i = 0; i < (int)m->numVertices(); i++) m->vertex(i)->lock();
        for (int b : bad) {
            Halfedge *h = m->face(b)->he_begin().ptr();
            h->dst()->setPos(h->src()->pos());
        }
    }
    c05_expected_terminate = !py && is_normal_filter(op.name) && bad_face;
    sim::g.on_terminate = c05_on_terminate;
    Snap before = snap(*m);
    uint64_t live0 = (uint64_t)sim::g.nlive;
    if (afail) sim::arm_alloc_fault(afail, apersist);
    Called c;
    mutate(*m, op, c);
    sim::disarm_alloc_fault();
    bool fault_hit = sim::g.alloc_failed > 0;
    sim::checked();
    if ((uint64_t)sim::g.nlive != live0)
        sim::violation("workers-left", "%d workers are still running after the call ended", (int)(sim::g.nlive - (int)live0));
    bool expect = is_normal_filter(op.name) && (bad_face || !bad.empty());
    if (no_mean && tri) expect = true;
    if (fault_hit) expect = true;
    if (expect && c.ok())
        sim::violation("error-lost", "%s returned normally although %s", op.name.c_str(),
                       fault_hit ? "an allocation failed inside it" : no_mean ? "a vertex has only neighbours of weight zero" : "the mesh has a face it must refuse");
    // smoothing a small mesh more than once can make it degenerate on the way
    degenerate |= op.name == "lap" && op.iarg(1) && op.iarg(2, 1) > 1;
    if (!expect && !degenerate && !c.ok())
        sim::violation("unexpected-error", "%s reported an error on good data: %s", op.name.c_str(), c.what.c_str());
    if (fault_hit && !bad_face && !degenerate && c.end != C_BADALLOC)
        sim::violation("wrong-error", "%s ran out of memory but reported: %s", op.name.c_str(), c.what.c_str());
    if (!c.ok()) sim::probe(fault_hit ? "delivered_out_of_memory" : "delivered_bad_data");
    else sim::probe("no_error_needed");
    std::string d = diff(before, snap(*m), D_CONN | D_LOCK | D_BND | D_PTR);
    if (!d.empty()) sim::violation("connectivity-changed", "a failing filter changed the mesh: %s", d.c_str());
    // the library goes on working
    Mesh *n = build(t);
    Called c2;
    mutate(*n, Op{"lap", {0.5, 0, 1}}, c2);
    if (!c2.ok()) sim::violation("not-usable-afterwards", "a later call fails: %s", c2.what.c_str());
    sim::shape((uint64_t)c.end * 7 + digest(*n));
    sample(p, fmt("ended=%s", c.ok() ? "normally" : c.what.c_str()));
    destroy(n);
    destroy(m);
}

extern const PropDef par_props[] = {
    {"C01", "native", c01_gen, c01_exec}, {"C02", "native", c02_gen, c02_exec}, {"C03", "native", c03_gen, c03_exec},
    {"C04", "native", c04_gen, c04_exec}, {"C05", "both", c05_gen, c05_exec},
};
extern const int par_count = 5;
}  // namespace wl
