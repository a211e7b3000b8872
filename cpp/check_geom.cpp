// C22: plane geometry buffers.
#include "api.h"
#include <algorithm>
#include <fstream>
#include <sstream>
#include <unistd.h>
using namespace mc;
namespace {
typedef std::pair<uint32_t, uint32_t> Edge;
Edge E(uint32_t a, uint32_t b) { return a < b ? Edge(a, b) : Edge(b, a); }
struct V { float cx, cy, sx, sy; };
const std::vector<V> vs = {{0, 0, 1, 1}, {0.25f, -0.5f, 2, 3}, {-3, 7, 0.5f, 16}, {100, 50, 1920, 1080}};
template <class T, class F> std::vector<T> filled(size_t n, const char *what, F fill) {
    // twice with different initial contents: every element must be written
    std::vector<T> a(n, T(7)), b(n, T(9));
    REQUIRE(fill(rust::Slice<T>(a.data(), n)), "filling the %s failed", what);
    REQUIRE(fill(rust::Slice<T>(b.data(), n)), "filling the %s failed", what);
    for (size_t i = 0; i < n; i++) REQUIRE(memcmp(&a[i], &b[i], sizeof(T)) == 0, "%s: element %zu of %zu is not written", what, i, n);
    return a;
}
void check(uint32_t dx, uint32_t dy, V v, bool set_later, const std::string *objpath = nullptr) {
    note("%u x %u divisions", dx, dy);
    auto p = set_later ? ocg::internal::create_geometry_plane_box(v.cx, v.cy, v.sx, v.sy, 5, 9) : ocg::internal::create_geometry_plane_box(v.cx, v.cy, v.sx, v.sy, dx, dy);
    if (set_later) { p->set_divisions_x(dx); p->set_divisions_y(dy); }
    REQUIRE(p->divisions_x() == dx && p->divisions_y() == dy, "divisions read back as %u x %u", p->divisions_x(), p->divisions_y());
    size_t nv = size_t(dx) * dy, cells = size_t(dx - 1) * (dy - 1);
    transition(10);
    REQUIRE(p->calc_count_vertex_positions() == nv && p->calc_count_vertex_uvs() == nv, "vertex counts");
    REQUIRE(p->calc_buffer_size_vertex_positions() == nv * 3, "position buffer size %zu for %zu vertices", p->calc_buffer_size_vertex_positions(), nv);
    REQUIRE(p->calc_buffer_size_vertex_uvs() == nv * 2, "uv buffer size %zu for %zu vertices", p->calc_buffer_size_vertex_uvs(), nv);
    auto pos = filled<float>(p->calc_buffer_size_vertex_positions(), "positions", [&](rust::Slice<float> s) { return p->fill_buffer_vertex_positions(s); });
    auto uv = filled<float>(p->calc_buffer_size_vertex_uvs(), "uvs", [&](rust::Slice<float> s) { return p->fill_buffer_vertex_uvs(s); });
    auto tri = filled<uint32_t>(p->calc_buffer_size_index_tris(), "triangle indices", [&](rust::Slice<uint32_t> s) { return p->fill_buffer_index_tris(s); });
    auto bor = filled<uint32_t>(p->calc_buffer_size_index_border_lines(), "border indices", [&](rust::Slice<uint32_t> s) { return p->fill_buffer_index_border_lines(s); });
    auto wir = filled<uint32_t>(p->calc_buffer_size_index_wire_lines(), "wire indices", [&](rust::Slice<uint32_t> s) { return p->fill_buffer_index_wire_lines(s); });
    double tol = 2e-6 * (std::fabs(v.sx) + std::fabs(v.sy) + std::fabs(v.cx) + std::fabs(v.cy));
    for (uint32_t r = 0; r < dy; r++) for (uint32_t c = 0; c < dx; c++) {
        size_t i = size_t(r) * dx + c; double fx = double(c) / (dx - 1), fy = double(r) / (dy - 1);
        double wx = -v.sx / 2.0 + v.sx * fx - v.cx, wy = -v.sy / 2.0 + v.sy * fy - v.cy;
        REQUIRE(std::fabs(pos[i * 3] - wx) <= tol && std::fabs(pos[i * 3 + 1] - wy) <= tol && pos[i * 3 + 2] == 0,
                "vertex %u,%u at (%.9g, %.9g, %.9g), expected (%.9g, %.9g, 0)", c, r, pos[i * 3], pos[i * 3 + 1], pos[i * 3 + 2], wx, wy);
        REQUIRE(std::fabs(uv[i * 2] - fx) <= 2e-6 && std::fabs(uv[i * 2 + 1] - (1 - fy)) <= 2e-6,
                "uv %u,%u is (%.9g, %.9g), expected (%.9g, %.9g)", c, r, uv[i * 2], uv[i * 2 + 1], fx, 1 - fy);
    }
    // triangles: each cell by exactly two triangles sharing a diagonal, all with one winding
    REQUIRE(tri.size() == cells * 6, "%zu triangle indices for %zu cells", tri.size(), cells);
    std::vector<int> per(cells, 0); std::vector<uint32_t> have(cells, 0); std::vector<int> diag(cells, -1);
    int winding = 0;
    for (size_t t = 0; t < tri.size(); t += 3) {
        int64_t X[3], Y[3];
        for (int k = 0; k < 3; k++) { REQUIRE(tri[t + k] < nv, "triangle index %u of %zu vertices", tri[t + k], nv); X[k] = tri[t + k] % dx; Y[k] = tri[t + k] / dx; }
        int64_t area = (X[1] - X[0]) * (Y[2] - Y[0]) - (X[2] - X[0]) * (Y[1] - Y[0]);
        int64_t x0 = std::min({X[0], X[1], X[2]}), x1 = std::max({X[0], X[1], X[2]}), y0 = std::min({Y[0], Y[1], Y[2]}), y1 = std::max({Y[0], Y[1], Y[2]});
        REQUIRE(x1 - x0 == 1 && y1 - y0 == 1 && (area == 1 || area == -1), "triangle %u %u %u is not half a grid cell", tri[t], tri[t + 1], tri[t + 2]);
        if (!winding) winding = int(area);
        REQUIRE(area == winding, "triangle %zu has the opposite winding", t / 3);
        size_t cell = size_t(y0) * (dx - 1) + x0;
        uint32_t mask = 0; for (int k = 0; k < 3; k++) mask |= 1u << ((X[k] - x0) + 2 * (Y[k] - y0));
        int missing = mask == 14 ? 0 : mask == 13 ? 1 : mask == 11 ? 2 : 3;
        per[cell]++;
        if (diag[cell] >= 0) REQUIRE(diag[cell] + missing == 3, "the triangles of cell %zu overlap", cell);
        diag[cell] = missing;
    }
    for (size_t c = 0; c < cells; c++) REQUIRE(per[c] == 2, "cell %zu is covered by %d triangles", c, per[c]);
    // border: the outline, each edge once
    std::vector<Edge> want, got;
    for (uint32_t r = 0; r + 1 < dy; r++) { want.push_back(E(r * dx, (r + 1) * dx)); want.push_back(E(r * dx + dx - 1, (r + 1) * dx + dx - 1)); }
    for (uint32_t c = 0; c + 1 < dx; c++) { want.push_back(E(c, c + 1)); want.push_back(E((dy - 1) * dx + c, (dy - 1) * dx + c + 1)); }
    REQUIRE(bor.size() % 2 == 0 && wir.size() % 2 == 0, "odd number of line indices");
    for (size_t i = 0; i < bor.size(); i += 2) got.push_back(E(bor[i], bor[i + 1]));
    std::sort(want.begin(), want.end()); std::sort(got.begin(), got.end());
    REQUIRE(want == got, "the border lines are not exactly the outline (%zu edges, expected %zu)", got.size(), want.size());
    // wire: all cell edges
    want.clear(); got.clear();
    for (uint32_t r = 0; r < dy; r++) for (uint32_t c = 0; c < dx; c++) {
        if (c + 1 < dx) want.push_back(E(r * dx + c, r * dx + c + 1));
        if (r + 1 < dy) want.push_back(E(r * dx + c, (r + 1) * dx + c));
    }
    for (size_t i = 0; i < wir.size(); i += 2) got.push_back(E(wir[i], wir[i + 1]));
    std::sort(want.begin(), want.end()); std::sort(got.begin(), got.end());
    got.erase(std::unique(got.begin(), got.end()), got.end());
    REQUIRE(want == got, "the wire lines are not exactly the cell edges (%zu distinct edges, expected %zu)", got.size(), want.size());
    state(mix(mix(mix(fnv(pos.data(), pos.size() * 4), fnv(tri.data(), tri.size() * 4)), dx), dy));
    if (objpath) {
        transition();
        ocg::internal::export_mesh(rust::Slice<const float>(pos.data(), pos.size()), rust::Slice<const float>(uv.data(), uv.size()), rust::Slice<const uint32_t>(tri.data(), tri.size()), rust::Str(*objpath));
        std::ifstream f(*objpath); std::string line; size_t a = 0, b = 0, c = 0;
        while (std::getline(f, line)) {
            std::istringstream is(line); std::string k; is >> k;
            if (k == "v") { double x, y, z; is >> x >> y >> z; REQUIRE(a < nv && float(x) == pos[a * 3] && float(y) == pos[a * 3 + 1] && float(z) == 0, "exported vertex %zu differs", a); a++; }
            else if (k == "vt") { double x, y; is >> x >> y; REQUIRE(b < nv && float(x) == uv[b * 2] && float(y) == uv[b * 2 + 1], "exported texture coordinate %zu differs", b); b++; }
            else if (k == "f") {
                REQUIRE(c < cells * 2, "too many exported faces");
                for (int j = 0; j < 3; j++) { unsigned p1 = 0, p2 = 0; char sl = 0; is >> p1 >> sl >> p2; REQUIRE(sl == '/' && p1 == p2 && p1 == tri[c * 3 + j] + 1, "exported face %zu differs", c); }
                c++;
            }
        }
        REQUIRE(a == nv && b == nv && c == cells * 2, "exported %zu vertices, %zu texture coordinates, %zu faces", a, b, c);
        unlink(objpath->c_str());
    }
}
void build(Suite &s) {
    s.assumptions = {"at least two divisions per axis; buffers of the reported size"};
    uint32_t N = s.thorough ? 64 : 33;
    s.add("all-division-pairs", uint64_t(N - 1) * (N - 1) * vs.size() * 2, [=](uint64_t i) {
        Digits d(i); bool later = d(2); V v = d.pick(vs); uint32_t dx = 2 + d(N - 1), dy = 2 + d(N - 1); check(dx, dy, v, later);
    }, [=](uint64_t i) { Digits d(i); bool later = d(2); V v = d.pick(vs); uint32_t dx = 2 + d(N - 1), dy = 2 + d(N - 1);
        return sfmt("plane centre (%g,%g) size (%g,%g), %u x %u divisions%s", v.cx, v.cy, v.sx, v.sy, dx, dy, later ? " set after creation" : ""); });
    static const std::vector<std::pair<uint32_t, uint32_t>> big = {{2, 40000}, {40000, 2}, {255, 257}, {256, 256}, {257, 255}, {300, 300}, {2, 256}, {256, 2}, {65, 129}, {129, 65}, {1000, 70}, {70, 1000}, {66000, 2}, {2, 66000}};
    s.add("large", big.size(), [=](uint64_t i) { check(big[i].first, big[i].second, vs[i % vs.size()], i & 1); },
          [=](uint64_t i) { return sfmt("%u x %u divisions", big[i].first, big[i].second); });
    std::string dir = s.dir;
    s.add("export", 7 * 7 * vs.size(), [=](uint64_t i) { Digits d(i); V v = d.pick(vs); uint32_t dx = 2 + d(7), dy = 2 + d(7); std::string p = dir + sfmt("/m%d.obj", int(getpid())); check(dx, dy, v, false, &p); },
          [=](uint64_t i) { Digits d(i); V v = d.pick(vs); uint32_t dx = 2 + d(7), dy = 2 + d(7); return sfmt("%u x %u divisions exported as a mesh file", dx, dy); });
}
Register r("C22", build);
}
