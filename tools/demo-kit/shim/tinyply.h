// Stand-in for the tinyply header, which this sandbox does not have. Same interface and the same
// behaviour as tinyply 2.3 for what the library uses: binary/ascii reading, binary writing, no
// checking of stream state while reading or writing.
#ifndef tinyply_h
#define tinyply_h

#include <cstdint>
#include <cstring>
#include <istream>
#include <memory>
#include <ostream>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace tinyply {

enum class Type : uint8_t { INVALID, INT8, UINT8, INT16, UINT16, INT32, UINT32, FLOAT32, FLOAT64 };

inline size_t type_size(Type t) {
    switch (t) {
    case Type::INT8:
    case Type::UINT8: return 1;
    case Type::INT16:
    case Type::UINT16: return 2;
    case Type::INT32:
    case Type::UINT32:
    case Type::FLOAT32: return 4;
    case Type::FLOAT64: return 8;
    default: return 0;
    }
}
inline const char *type_name(Type t) {
    switch (t) {
    case Type::INT8: return "char";
    case Type::UINT8: return "uchar";
    case Type::INT16: return "short";
    case Type::UINT16: return "ushort";
    case Type::INT32: return "int";
    case Type::UINT32: return "uint";
    case Type::FLOAT32: return "float";
    case Type::FLOAT64: return "double";
    default: return "INVALID";
    }
}
inline Type type_from(const std::string &s) {
    if (s == "int8" || s == "char") return Type::INT8;
    if (s == "uint8" || s == "uchar") return Type::UINT8;
    if (s == "int16" || s == "short") return Type::INT16;
    if (s == "uint16" || s == "ushort") return Type::UINT16;
    if (s == "int32" || s == "int") return Type::INT32;
    if (s == "uint32" || s == "uint") return Type::UINT32;
    if (s == "float32" || s == "float") return Type::FLOAT32;
    if (s == "float64" || s == "double") return Type::FLOAT64;
    return Type::INVALID;
}

struct Buffer {
    std::unique_ptr<uint8_t[]> owned;
    uint8_t *alias = nullptr;
    size_t size = 0;
    Buffer() = default;
    explicit Buffer(size_t n) : owned(new uint8_t[n]), alias(owned.get()), size(n) {}
    uint8_t *get() { return alias; }
    size_t size_bytes() const { return size; }
};
struct PlyData {
    Type t = Type::INVALID;
    Buffer buffer;
    size_t count = 0;
    bool isList = false;
};
struct PlyProperty {
    std::string name;
    Type type = Type::INVALID;
    bool isList = false;
    Type listType = Type::INVALID;
    size_t listCount = 0;
};
struct PlyElement {
    std::string name;
    size_t size = 0;
    std::vector<PlyProperty> properties;
};

class PlyFile {
    struct Request {
        std::shared_ptr<PlyData> data;
        size_t hint = 0;
        size_t cursor = 0;
        std::string element;
        std::vector<std::string> keys;
        bool isList = false;
        bool grow = false;  // lists of unknown length: the buffer gets as long as the data
    };
    struct Write {
        std::string element;
        std::vector<std::string> keys;
        Type t;
        size_t count;
        uint8_t *data;
        Type listType;
        size_t listCount;
    };
    std::vector<PlyElement> elements;
    size_t past = 0;  // values asked for after the end of the file, or without any bytes
    std::vector<std::string> comments;
    std::vector<std::string> info;
    std::vector<Request> requests;
    std::vector<Write> writes;
    bool binary = false, bigEndian = false;

public:
    bool parse_header(std::istream &is) {
        std::string line;
        bool success = true;
        while (std::getline(is, line)) {
            std::istringstream ls(line);
            std::string tok;
            ls >> tok;
            if (tok == "ply" || tok == "PLY" || tok == "") continue;
            else if (tok == "comment") comments.push_back(line.size() > 8 ? line.substr(8) : "");
            else if (tok == "format") {
                std::string s;
                ls >> s;
                if (s == "binary_little_endian") binary = true;
                else if (s == "binary_big_endian") binary = bigEndian = true;
            } else if (tok == "element") {
                PlyElement e;
                ls >> e.name >> e.size;
                elements.push_back(e);
            } else if (tok == "property") {
                if (elements.empty()) throw std::runtime_error("no elements defined; file is malformed");
                PlyProperty p;
                std::string type;
                ls >> type;
                if (type == "list") {
                    std::string ct;
                    ls >> ct >> type;
                    p.listType = type_from(ct);
                    p.isList = true;
                }
                p.type = type_from(type);
                ls >> p.name;
                elements.back().properties.push_back(p);
            } else if (tok == "obj_info") info.push_back(line);
            else if (tok == "end_header") break;
            else success = false;
        }
        return success;
    }

    std::shared_ptr<PlyData> request_properties_from_element(const std::string &elementKey,
                                                             const std::vector<std::string> propertyKeys,
                                                             const uint32_t list_size_hint = 0) {
        if (elements.empty()) throw std::runtime_error("header had no elements defined. malformed file?");
        if (elementKey.empty()) throw std::invalid_argument("`elementKey` argument is empty");
        if (propertyKeys.empty()) throw std::invalid_argument("`propertyKeys` argument is empty");
        const PlyElement *el = nullptr;
        for (auto &e : elements)
            if (e.name == elementKey) {
                el = &e;
                break;
            }
        if (!el) throw std::invalid_argument("the element key was not found in the header: " + elementKey);
        std::string missing;
        Request r;
        r.data = std::make_shared<PlyData>();
        r.data->count = el->size;
        r.element = elementKey;
        r.keys = propertyKeys;
        r.hint = list_size_hint;
        bool first = true;
        for (auto &k : propertyKeys) {
            const PlyProperty *pp = nullptr;
            for (auto &p : el->properties)
                if (p.name == k) {
                    pp = &p;
                    break;
                }
            if (!pp) {
                missing += k + ", ";
                continue;
            }
            if (first) {
                r.data->t = pp->type;
                r.data->isList = r.isList = pp->isList;
                first = false;
            } else if (r.data->t != pp->type)
                throw std::invalid_argument("all requested properties must share the same type.");
        }
        if (!missing.empty()) throw std::invalid_argument("the following property keys were not found in the header: " + missing);
        requests.push_back(r);
        return r.data;
    }

    void read(std::istream &is) {
        // every buffer gets its size first
        for (auto &r : requests) {
            size_t per = 0;
            for (auto &e : elements)
                if (e.name == r.element)
                    for (auto &k : r.keys)
                        for (auto &p : e.properties)
                            if (p.name == k) {
                                per += type_size(p.type) * (p.isList ? r.hint : 1);
                                if (p.isList && r.hint == 0) r.grow = true;
                            }
            r.data->buffer = Buffer(r.grow ? 64 : per * r.data->count);
        }
        for (auto &e : elements) {
            for (size_t n = 0; n < e.size && !e.properties.empty(); n++) {
                for (auto &p : e.properties) {
                    Request *req = nullptr;
                    for (auto &r : requests)
                        if (r.element == e.name)
                            for (auto &k : r.keys)
                                if (k == p.name) req = &r;
                    if (!p.isList) {
                        if (req) read_value(is, p.type, req);
                        else skip_value(is, p.type);
                    } else {
                        size_t cnt = read_count(is, p.listType);
                        for (size_t i = 0; i < cnt; i++) {
                            if (req) read_value(is, p.type, req);
                            else skip_value(is, p.type);
                        }
                    }
                }
            }
        }
        for (auto &r : requests)
            if (r.grow) resize(r, r.cursor);
    }

    void add_properties_to_element(const std::string &elementKey, const std::vector<std::string> propertyKeys,
                                   const Type type, const size_t count, uint8_t *data, const Type listType,
                                   const size_t listCount) {
        PlyElement *el = nullptr;
        for (auto &e : elements)
            if (e.name == elementKey) el = &e;
        if (!el) {
            elements.push_back(PlyElement());
            el = &elements.back();
            el->name = elementKey;
            el->size = count;
        }
        for (auto &k : propertyKeys) {
            PlyProperty p;
            p.name = k;
            p.type = type;
            p.isList = listType != Type::INVALID;
            p.listType = listType;
            p.listCount = listCount;
            el->properties.push_back(p);
        }
        writes.push_back(Write{elementKey, propertyKeys, type, count, data, listType, listCount});
    }
    std::vector<std::string> &get_comments() { return comments; }
    std::vector<std::string> &get_info() { return info; }
    std::vector<PlyElement> get_elements() const { return elements; }

    void write(std::ostream &os, bool isBinary) {
        os << "ply\n";
        os << (isBinary ? "format binary_little_endian 1.0\n" : "format ascii 1.0\n");
        for (auto &c : comments) os << "comment " << c << "\n";
        for (auto &e : elements) {
            os << "element " << e.name << " " << e.size << "\n";
            for (auto &p : e.properties) {
                if (p.isList) os << "property list " << type_name(p.listType) << " " << type_name(p.type) << " " << p.name << "\n";
                else os << "property " << type_name(p.type) << " " << p.name << "\n";
            }
        }
        os << "end_header\n";
        for (auto &w : writes) {
            size_t sz = type_size(w.t);
            uint8_t *p = w.data;
            for (size_t n = 0; n < w.count; n++) {
                if (w.listType != Type::INVALID) {
                    uint64_t c = w.listCount;
                    if (isBinary) os.write((const char *)&c, (std::streamsize)type_size(w.listType));
                    else os << c << " ";
                    put(os, isBinary, w.t, p, w.listCount);
                    p += sz * w.listCount;
                } else {
                    put(os, isBinary, w.t, p, w.keys.size());
                    p += sz * w.keys.size();
                }
                if (!isBinary) os << "\n";
            }
        }
    }

private:
    static void put(std::ostream &os, bool bin, Type t, const uint8_t *p, size_t n) {
        size_t sz = type_size(t);
        if (bin) {
            for (size_t i = 0; i < n; i++) os.write((const char *)p + i * sz, (std::streamsize)sz);
            return;
        }
        for (size_t i = 0; i < n; i++, p += sz) {
            if (t == Type::FLOAT32) {
                float f;
                std::memcpy(&f, p, 4);
                os << f << " ";
            } else if (t == Type::FLOAT64) {
                double f;
                std::memcpy(&f, p, 8);
                os << f << " ";
            } else {
                int64_t v = 0;
                std::memcpy(&v, p, sz);
                os << v << " ";
            }
        }
    }
    static void swap_bytes(uint8_t *p, size_t n) {
        for (size_t i = 0; i < n / 2; i++) std::swap(p[i], p[n - 1 - i]);
    }
    void fetch(std::istream &is, Type t, uint8_t *dst) {
        size_t sz = type_size(t);
        // a damaged count must not keep the stand-in busy for hours
        if ((!is || sz == 0) && ++past > 1000000) throw std::runtime_error("unexpected EOF. malformed file?");
        if (binary) {
            is.read((char *)dst, (std::streamsize)sz);
            if (bigEndian) swap_bytes(dst, sz);
            return;
        }
        if (t == Type::FLOAT32) {
            float f;
            is >> f;
            std::memcpy(dst, &f, 4);
        } else if (t == Type::FLOAT64) {
            double f;
            is >> f;
            std::memcpy(dst, &f, 8);
        } else {
            int64_t v = 0;
            is >> v;
            std::memcpy(dst, &v, sz);
        }
    }
    size_t read_count(std::istream &is, Type t) {
        if (!is) throw std::runtime_error("unexpected EOF. malformed file?");
        uint8_t tmp[8] = {0, 0, 0, 0, 0, 0, 0, 0};
        fetch(is, t, tmp);
        uint64_t v;
        std::memcpy(&v, tmp, 8);
        return (size_t)v;
    }
    static void resize(Request &r, size_t n) {
        Buffer b(n);
        std::memcpy(b.get(), r.data->buffer.get(), std::min(n, r.cursor));
        r.data->buffer = std::move(b);
    }
    void read_value(std::istream &is, Type t, Request *r) {
        size_t sz = type_size(t);
        if (r->grow && r->cursor + sz > r->data->buffer.size_bytes()) resize(*r, 2 * r->data->buffer.size_bytes());
        if (r->cursor + sz > r->data->buffer.size_bytes()) throw std::runtime_error("unexpected EOF. malformed file?");
        fetch(is, t, r->data->buffer.get() + r->cursor);
        r->cursor += sz;
    }
    void skip_value(std::istream &is, Type t) {
        // tinyply would go on skipping; a damaged count must not keep the stand-in busy for hours
        if (!is) throw std::runtime_error("unexpected EOF. malformed file?");
        uint8_t tmp[8];
        fetch(is, t, tmp);
    }
};

}  // namespace tinyply
#endif
