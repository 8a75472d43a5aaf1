// Stand-in for the tinyobjloader header, which this sandbox does not have. Same interface and
// behaviour as tinyobjloader for what the library uses: vertices, faces (fans for polygons),
// negative indices, "Cannot open file" on open failure, reading until the stream fails.
#ifndef TINY_OBJ_LOADER_H_
#define TINY_OBJ_LOADER_H_

#include <cstdlib>
#include <cstring>
#include <fstream>
#include <string>
#include <vector>

namespace tinyobj {

typedef float real_t;

struct material_t {
    std::string name;
};
struct index_t {
    int vertex_index, normal_index, texcoord_index;
};
struct mesh_t {
    std::vector<index_t> indices;
    std::vector<unsigned char> num_face_vertices;
};
struct shape_t {
    std::string name;
    mesh_t mesh;
};
struct attrib_t {
    std::vector<real_t> vertices, normals, texcoords;
};

class MaterialReader;

inline bool LoadObj(attrib_t *attrib, std::vector<shape_t> *shapes, std::vector<material_t> *materials,
                    std::string *warn, std::string *err, std::istream *inStream, MaterialReader *readMatFn = nullptr,
                    bool triangulate = true, bool default_vcols_fallback = true) {
    (void)materials;
    (void)readMatFn;
    (void)triangulate;
    (void)default_vcols_fallback;
    attrib->vertices.clear();
    attrib->normals.clear();
    attrib->texcoords.clear();
    shapes->clear();
    std::istream &ifs = *inStream;
    shape_t shape;
    std::string line;
    int greatest = -1;
    size_t lineno = 0;
    while (ifs.peek() != -1) {
        std::getline(ifs, line);
        lineno++;
        while (!line.empty() && (line.back() == '\n' || line.back() == '\r')) line.pop_back();
        const char *p = line.c_str();
        p += std::strspn(p, " \t");
        if (*p == '\0' || *p == '#') continue;
        if (p[0] == 'v' && (p[1] == ' ' || p[1] == '\t')) {
            p += 2;
            for (int i = 0; i < 3; i++) {
                p += std::strspn(p, " \t");
                char *end = nullptr;
                double d = std::strtod(p, &end);
                if (end == p) d = 0.0;
                p = end == p ? p + std::strcspn(p, " \t") : end;
                attrib->vertices.push_back((real_t)d);
            }
            continue;
        }
        if (p[0] == 'f' && (p[1] == ' ' || p[1] == '\t')) {
            p += 2;
            p += std::strspn(p, " \t");
            std::vector<index_t> face;
            while (*p) {
                int v = std::atoi(p);
                int nv = (int)(attrib->vertices.size() / 3);
                index_t idx = {-1, -1, -1};
                if (v > 0) idx.vertex_index = v - 1;
                else if (v < 0) {
                    idx.vertex_index = nv + v;
                    if (idx.vertex_index < 0) v = 0;
                }
                if (v == 0) {
                    if (err) *err += "Failed parse `f' line (e.g. zero value for vertex index). line " + std::to_string(lineno) + ".\n";
                    return false;
                }
                if (idx.vertex_index > greatest) greatest = idx.vertex_index;
                face.push_back(idx);
                p += std::strcspn(p, " \t");
                p += std::strspn(p, " \t");
            }
            if (face.size() < 3) {
                if (warn) *warn += "Degenerated face found\n.";
                continue;
            }
            for (size_t k = 2; k < face.size(); k++) {
                shape.mesh.indices.push_back(face[0]);
                shape.mesh.indices.push_back(face[k - 1]);
                shape.mesh.indices.push_back(face[k]);
                shape.mesh.num_face_vertices.push_back(3);
            }
            continue;
        }
    }
    if (greatest >= (int)(attrib->vertices.size() / 3)) {
        if (warn) *warn += "Vertex indices out of bounds (line " + std::to_string(lineno) + ".)\n\n";
    }
    if (!shape.mesh.indices.empty()) shapes->push_back(shape);
    return true;
}

inline bool LoadObj(attrib_t *attrib, std::vector<shape_t> *shapes, std::vector<material_t> *materials,
                    std::string *warn, std::string *err, const char *filename, const char *mtl_basedir = nullptr,
                    bool triangulate = true, bool default_vcols_fallback = true) {
    (void)mtl_basedir;
    std::ifstream ifs(filename);
    if (!ifs) {
        if (err) *err = std::string("Cannot open file [") + filename + "]\n";
        return false;
    }
    return LoadObj(attrib, shapes, materials, warn, err, &ifs, nullptr, triangulate, default_vcols_fallback);
}

}  // namespace tinyobj
#endif
