#ifndef SHAPES_H
#define SHAPES_H
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <vector>

#include "core/mesh.h"
#include "core/vertex.h"
#include "core/halfedge.h"
#include "core/face.h"

using namespace tinymesh;

// a torus (or, with hole > 0, a torus with a few triangles left out) with uneven vertex positions
inline void torus(int n, int m, int hole, std::vector<Vec3> &p, std::vector<uint32_t> &f) {
    for (int i = 0; i < n; i++)
        for (int j = 0; j < m; j++) {
            double a = 2 * M_PI * i / n, b = 2 * M_PI * j / m, r = 0.4 + 0.03 * std::sin(7 * i + 3 * j);
            p.push_back(Vec3((1 + r * std::cos(b)) * std::cos(a), (1 + r * std::cos(b)) * std::sin(a), r * std::sin(b)));
        }
    auto id = [&](int i, int j) { return (uint32_t)((i + n) % n * m + (j + m) % m); };
    for (int i = 0; i < n; i++)
        for (int j = 0; j < m; j++) {
            if (hole && i < hole && j < hole) continue;
            for (uint32_t k : { id(i, j), id(i + 1, j), id(i + 1, j + 1), id(i, j), id(i + 1, j + 1), id(i, j + 1) }) f.push_back(k);
        }
}
inline Mesh make_torus(int n, int m, int hole = 0) {
    std::vector<Vec3> p;
    std::vector<uint32_t> f;
    torus(n, m, hole, p, f);
    return Mesh(p, f);
}
// an n by m grid of squares, each cut into two triangles
inline Mesh make_grid(int n, int m) {
    std::vector<Vec3> p;
    std::vector<uint32_t> f;
    for (int i = 0; i <= n; i++)
        for (int j = 0; j <= m; j++) p.push_back(Vec3(i, j, 0.1 * std::sin(5 * i + 3 * j)));
    auto id = [&](int i, int j) { return (uint32_t)(i * (m + 1) + j); };
    for (int i = 0; i < n; i++)
        for (int j = 0; j < m; j++)
            for (uint32_t k : { id(i, j), id(i + 1, j), id(i + 1, j + 1), id(i, j), id(i + 1, j + 1), id(i, j + 1) }) f.push_back(k);
    return Mesh(p, f);
}
#endif
