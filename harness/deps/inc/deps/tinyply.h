// Stand-in for ddiakopoulos/tinyply (the repository downloads it at configure
// time; there is no network here). It implements the part of the interface that
// save_data.cpp uses: columns are added to elements and written as binary PLY.
// It additionally remembers the columns of the last file in memory, so that a
// harness can read what was saved without parsing the file.
#ifndef VERIF_TINYPLY_H
#define VERIF_TINYPLY_H
#include <cstdint>
#include <cstring>
#include <initializer_list>
#include <map>
#include <ostream>
#include <sstream>
#include <string>
#include <vector>
namespace tinyply {
enum class Type : uint8_t { INVALID, INT8, UINT8, INT16, UINT16, INT32, UINT32, FLOAT32, FLOAT64 };
struct VerifColumn { std::string name; Type type; size_t count; std::vector<double> values; };
struct VerifCapture { std::vector<VerifColumn> columns; };
inline VerifCapture& verif_last_file() { static VerifCapture c; return c; }
class PlyFile {
    struct Group { std::string element; std::vector<std::string> keys; Type type; size_t count; const uint8_t* data; };
    std::vector<Group> groups;
    static size_t size_of(Type t) { return t == Type::FLOAT32 ? 4 : 8; }
public:
    void add_properties_to_element(const std::string& elementKey, const std::vector<std::string> propertyKeys,
        const Type type, const size_t count, const uint8_t* data, const Type /*listType*/, const size_t /*listCount*/) {
        groups.push_back({elementKey, propertyKeys, type, count, data});
    }
    std::vector<std::string>& get_comments() { static std::vector<std::string> c; return c; }
    void write(std::ostream& os, bool isBinary) {
        VerifCapture cap;
        for (auto& g : groups) {
            size_t w = g.keys.size(), s = size_of(g.type);
            for (size_t k = 0; k < w; k++) {
                VerifColumn c{g.keys[k], g.type, g.count, {}};
                for (size_t i = 0; i < g.count; i++) {
                    const uint8_t* at = g.data + (i * w + k) * s;
                    if (g.type == Type::FLOAT32) { float f; std::memcpy(&f, at, 4); c.values.push_back(f); }
                    else { double d; std::memcpy(&d, at, 8); c.values.push_back(d); }
                }
                cap.columns.push_back(c);
            }
        }
        verif_last_file() = cap;
        if (!os || groups.empty()) return;
        size_t n = groups[0].count; // as in tinyply: the first group sets the size of the element
        os << "ply\nformat " << (isBinary ? "binary_little_endian" : "ascii") << " 1.0\n";
        os << "element " << groups[0].element << " " << n << "\n";
        for (auto& g : groups) for (auto& k : g.keys)
            os << "property " << (g.type == Type::FLOAT32 ? "float" : "double") << " " << k << "\n";
        os << "end_header\n";
        for (size_t i = 0; i < n; i++)
            for (auto& g : groups) {
                size_t w = g.keys.size(), s = size_of(g.type);
                if (i >= g.count) { std::vector<char> z(w * s, (char)0xff); os.write(z.data(), z.size()); continue; }
                if (isBinary) os.write(reinterpret_cast<const char*>(g.data + i * w * s), w * s);
                else for (size_t k = 0; k < w; k++) {
                    double d; float f;
                    if (g.type == Type::FLOAT32) { std::memcpy(&f, g.data + (i*w+k)*s, 4); d = f; } else std::memcpy(&d, g.data + (i*w+k)*s, 8);
                    os << d << " ";
                }
            }
    }
};
} // namespace tinyply
#endif
