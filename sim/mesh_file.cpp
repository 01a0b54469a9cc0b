// Reads mesh and state files with the plain HDF5 library (no code of the program under test) and describes them in a
// canonical form that does not depend on the order in which elements, vertices and connections are stored.
#include <array>
#include <map>
#include <functional>
#include "harness.hpp"
#include <hdf5.h>
#include <algorithm>
#include <cmath>
#include <fstream>
#include <sstream>
#include <set>
#include <unistd.h>

namespace sim {

bool exists(const std::string& p) { return access(p.c_str(), F_OK) == 0; }
std::string read_text(const std::string& p) { std::ifstream f(p, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }

template <typename T> struct Table { std::vector<T> v; hsize_t rows = 0, cols = 0; bool ok = false; const T* row(size_t i) const { return v.data() + i*cols; } };
template <typename T> hid_t native();
template <> hid_t native<int>() { return H5T_NATIVE_INT; }
template <> hid_t native<double>() { return H5T_NATIVE_DOUBLE; }
template <> hid_t native<unsigned char>() { return H5T_NATIVE_UCHAR; }

template <typename T> static Table<T> read_table(hid_t f, const char* name)
{
  Table<T> t;
  hid_t d = H5Dopen2(f, name, H5P_DEFAULT);
  if (d < 0) return t;
  hid_t s = H5Dget_space(d);
  hsize_t dims[4] {1, 1, 1, 1};
  int nd = H5Sget_simple_extent_ndims(s);
  if (nd >= 1 && nd <= 4) {
    H5Sget_simple_extent_dims(s, dims, nullptr);
    t.rows = dims[0]; t.cols = dims[1]*dims[2]*dims[3];
    if (t.rows*t.cols < 100000000ull) {
      t.v.resize(t.rows*t.cols);
      t.ok = t.v.empty() || H5Dread(d, native<T>(), H5S_ALL, H5S_ALL, H5P_DEFAULT, (void*)t.v.data()) >= 0;
    }
  }
  H5Sclose(s); H5Dclose(d);
  return t;
}
static bool read_attr(hid_t f, const char* name, double* v)
{
  if (H5Aexists(f, name) <= 0) return false;
  hid_t a = H5Aopen(f, name, H5P_DEFAULT);
  if (a < 0) return false;
  bool ok = H5Aread(a, H5T_NATIVE_DOUBLE, v) >= 0;
  H5Aclose(a);
  return ok;
}

struct Mesh_file {
  int n_dim = 0, row_size = 0, n_vert = 0;
  double root_size = 0;
  Table<double> pos, adj, origin;
  Table<int> verts, nom, lvl, con, ref, bnd, tree, adj_ind, def_i;
  Table<unsigned char> def; // stored as boolean
  std::string bad;    // why the file can not be used
  bool load(const std::string& path)
  {
    H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr);
    hid_t f = H5Fopen(path.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT);
    if (f < 0) { bad = "can not be opened"; return false; }
    double v;
    bool ok = true;
    auto need = [&](bool b, const char* what) { if (!b && ok) { ok = false; bad = std::string("missing or unreadable: ") + what; } };
    need(read_attr(f, "n_dim", &v), "n_dim"); n_dim = v;
    need(read_attr(f, "row_size", &v), "row_size"); row_size = v;
    need(read_attr(f, "root_size", &v), "root_size"); root_size = v;
    if (ok) {
      n_vert = 1 << n_dim;
      pos = read_table<double>(f, "/vertices/position"); need(pos.ok && pos.cols == 3, "vertices/position");
      verts = read_table<int>(f, "/elements/vertices"); need(verts.ok && (int)verts.cols == n_vert, "elements/vertices");
      nom = read_table<int>(f, "/elements/nominal_position"); need(nom.ok && (int)nom.cols == n_dim, "elements/nominal_position");
      lvl = read_table<int>(f, "/elements/refinement_level"); need(lvl.ok, "elements/refinement_level");
      def = read_table<unsigned char>(f, "/elements/is_deformed"); need(def.ok, "elements/is_deformed");
      con = read_table<int>(f, "/connections/conformal"); need(con.ok && con.cols == 6, "connections/conformal");
      ref = read_table<int>(f, "/connections/refined"); need(ref.ok && ref.cols == 11, "connections/refined");
      bnd = read_table<int>(f, "/connections/boundary"); need(bnd.ok && bnd.cols == 4, "connections/boundary");
      adj_ind = read_table<int>(f, "/elements/face_warping/element_indices"); need(adj_ind.ok, "face_warping/element_indices");
      adj = read_table<double>(f, "/elements/face_warping/node_adjustments"); need(adj.ok && adj.rows == adj_ind.rows, "face_warping/node_adjustments");
      if (H5Lexists(f, "/tree", H5P_DEFAULT) > 0) { tree = read_table<int>(f, "/tree/children"); need(tree.ok, "tree/children"); origin = read_table<double>(f, "/tree/origin"); need(origin.ok, "tree/origin"); }
      size_t n = verts.rows;
      need(nom.rows == n && lvl.rows == n && def.rows == n, "consistent element counts");
      auto idx = [&](int i, size_t m) { return i >= 0 && (size_t)i < m; };
      for (int x : verts.v) need(idx(x, pos.rows), "vertex indices in range");
      for (size_t i = 0; i < con.rows; ++i) need(idx(con.row(i)[0], n) && idx(con.row(i)[1], n), "conformal connection indices in range");
      for (size_t i = 0; i < ref.rows; ++i) { need(idx(ref.row(i)[0], n), "refined connection indices in range"); for (int k = 1; k < 5; ++k) need(ref.row(i)[k] == -1 || idx(ref.row(i)[k], n), "refined connection indices in range"); }
      for (size_t i = 0; i < bnd.rows; ++i) need(idx(bnd.row(i)[0], n), "boundary connection indices in range");
      for (int x : adj_ind.v) need(idx(x, n), "face warping indices in range");
      for (size_t i = 0; i < tree.rows; ++i) { need(tree.row(i)[0] == -1 || idx(tree.row(i)[0], n), "tree element indices in range"); for (size_t k = 2; k < tree.cols; ++k) need(tree.row(i)[k] == -1 || idx(tree.row(i)[k], tree.rows), "tree child indices in range"); }
    }
    H5Fclose(f);
    return ok;
  }
};

// topological validity of a mesh, from the file alone
static void check_topology(const Mesh_file& m, const std::string& where)
{
  size_t n = m.verts.rows;
  int nf = 2*m.n_dim;
  auto bad = [&](const std::string& s) { out.violation(where + ": " + s); };
  std::vector<int> face_use(n*nf, 0);
  std::vector<int> tree_of(n, -1);
  for (size_t i = 0; i < m.tree.rows; ++i) if (m.tree.row(i)[0] >= 0) {
    int e = m.tree.row(i)[0];
    if (tree_of[e] >= 0) bad(fmt("element %d belongs to two tree cells", e));
    tree_of[e] = i;
  }
  auto use = [&](int e, int dim, int sign) {
    if (dim < 0 || dim >= m.n_dim || sign < 0 || sign > 1) { bad("face direction out of range"); return; }
    ++face_use[e*nf + 2*dim + sign];
  };
  // vertices of a face of an element, in row-major order
  auto face_verts = [&](int e, int dim, int sign) {
    std::vector<int> r;
    for (int v = 0; v < m.n_vert; ++v) if (((v >> (m.n_dim - 1 - dim)) & 1) == sign) r.push_back(m.verts.row(e)[v]);
    return r;
  };
  for (size_t i = 0; i < m.con.rows; ++i) {
    auto* c = m.con.row(i);
    for (int s = 0; s < 2; ++s) use(c[s], c[2 + s], c[4 + s]);
    if (c[0] == c[1]) bad(fmt("element %d is connected to itself", c[0]));
    if (m.lvl.v[c[0]] != m.lvl.v[c[1]]) bad(fmt("conformal connection between refinement levels %d and %d", m.lvl.v[c[0]], m.lvl.v[c[1]]));
    auto a = face_verts(c[0], c[2], c[4]), b = face_verts(c[1], c[3], c[5]);
    std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
    if (a != b) bad(fmt("elements %d and %d are connected but do not share the vertices of the face", c[0], c[1]));
  }
  for (size_t i = 0; i < m.ref.rows; ++i) {
    auto* c = m.ref.row(i);
    use(c[0], c[7], c[9]);
    int nfine = 0;
    for (int k = 0; k < 4; ++k) if (c[1 + k] >= 0) {
      ++nfine;
      use(c[1 + k], c[8], c[10]);
      if (m.lvl.v[c[1 + k]] != m.lvl.v[c[0]] + 1) bad(fmt("refined connection between refinement levels %d and %d", m.lvl.v[c[0]], m.lvl.v[c[1 + k]]));
    }
    int want = 1 << std::max(0, m.n_dim - 1 - (c[5] != 0) - (c[6] != 0));
    if (nfine != want) bad(fmt("refined connection with %d fine elements instead of %d", nfine, want));
  }
  for (size_t i = 0; i < m.bnd.rows; ++i) { auto* c = m.bnd.row(i); use(c[0], c[2], c[3]); }
  int missing = 0, redundant = 0;
  for (int u : face_use) { if (u == 0) ++missing; if (u > 1) ++redundant; }
  if (missing || redundant) bad(fmt("%d faces without connection, %d faces with more than one", missing, redundant));
  // tree: status and children
  if (m.tree.rows) {
    std::vector<int> seen(m.tree.rows, 0);
    struct Node { int row, level; std::vector<int> pos; };
    std::vector<Node> stack {{0, 0, std::vector<int>(m.n_dim, 0)}};
    while (!stack.empty()) {
      Node nd = stack.back(); stack.pop_back();
      if (seen[nd.row]++) { bad("tree cell reached twice"); break; }
      auto* r = m.tree.row(nd.row);
      bool leaf = r[2] < 0;
      int kids = 0; for (size_t k = 2; k < m.tree.cols; ++k) kids += r[k] >= 0;
      if (kids != 0 && kids != m.n_vert) bad("tree cell with an incomplete set of children");
      if (r[0] >= 0) {
        if (!leaf) bad(fmt("tree cell with children still has an element (%d)", r[0]));
        if (m.lvl.v[r[0]] != nd.level) bad(fmt("element %d and its tree cell disagree about the refinement level", r[0]));
        for (int d = 0; d < m.n_dim; ++d) if (m.nom.row(r[0])[d] != nd.pos[d]) { bad(fmt("element %d and its tree cell disagree about the position", r[0])); break; }
      }
      if (kids == m.n_vert) for (int k = 0; k < m.n_vert; ++k) {
        Node c {r[2 + k], nd.level + 1, nd.pos};
        for (int d = 0; d < m.n_dim; ++d) c.pos[d] = 2*nd.pos[d] + ((k >> (m.n_dim - 1 - d)) & 1);
        stack.push_back(c);
      }
    }
  }
  if (m.tree.rows) {
    // neighbouring cells of the tree that both have an element are connected to each other
    std::map<std::vector<int>, int> cell; // refinement level and position to element
    std::set<std::pair<int, int>> linked;
    auto key = [&](int lvl, std::vector<int> pos) { pos.insert(pos.begin(), lvl); return pos; };
    auto pos_of = [&](size_t e) { return std::vector<int>(m.nom.row(e), m.nom.row(e) + m.n_dim); };
    auto link = [&](int a, int b) { linked.insert({std::min(a, b), std::max(a, b)}); };
    for (size_t e = 0; e < n; ++e) if (tree_of[e] >= 0) cell[key(m.lvl.v[e], pos_of(e))] = e;
    for (size_t i = 0; i < m.con.rows; ++i) link(m.con.row(i)[0], m.con.row(i)[1]);
    for (size_t i = 0; i < m.ref.rows; ++i) for (int k = 0; k < 4; ++k) if (m.ref.row(i)[1 + k] >= 0) link(m.ref.row(i)[0], m.ref.row(i)[1 + k]);
    for (size_t e = 0; e < n; ++e) if (tree_of[e] >= 0) for (int f = 0; f < nf; ++f) {
      auto x = pos_of(e); x[f/2] += f%2 ? 1 : -1;
      std::vector<int> nb;
      for (int l = m.lvl.v[e]; l >= 0; --l) {
        auto it = cell.find(key(l, x)); if (it != cell.end()) nb.push_back(it->second);
        for (int& c : x) c = c >= 0 ? c/2 : -1;
      }
      x = pos_of(e); x[f/2] += f%2 ? 1 : -1;
      for (int v = 0; v < m.n_vert; ++v) {
        auto y = x; bool touches = true;
        for (int d = 0; d < m.n_dim; ++d) { int b = (v >> (m.n_dim - 1 - d)) & 1; y[d] = 2*y[d] + b; if (d == f/2) touches = b != f%2; }
        auto it = cell.find(key(m.lvl.v[e] + 1, y)); if (touches && it != cell.end()) nb.push_back(it->second);
      }
      for (int b : nb) if (!linked.count({std::min<int>(e, b), std::max<int>(e, b)})) bad(fmt("elements %zu and %d occupy neighbouring cells of the tree but are not connected", e, b));
    }
    // every other element belongs to a layer that has been extruded from an element of the tree
    std::vector<int> from(n, -1); // the face which each one has been extruded from
    std::vector<std::vector<std::array<int, 2>>> next(n);
    for (size_t i = 0; i < m.con.rows; ++i) {
      auto* c = m.con.row(i);
      if (c[2] == c[3] && c[4] != c[5] && m.lvl.v[c[0]] == m.lvl.v[c[1]]) for (int s = 0; s < 2; ++s) {
        int a = c[s], b = c[!s], f = 2*c[2] + c[4 + s];
        auto x = pos_of(a); x[f/2] += f%2 ? 1 : -1;
        if (tree_of[b] < 0 && x == pos_of(b)) next[a].push_back({f, b});
      }
    }
    std::vector<int> todo;
    for (size_t e = 0; e < n; ++e) if (tree_of[e] >= 0) todo.push_back(e);
    while (!todo.empty()) {
      int a = todo.back(); todo.pop_back();
      for (auto& fb : next[a]) if ((tree_of[a] >= 0 || from[a] == fb[0]) && from[fb[1]] < 0) { from[fb[1]] = fb[0]; todo.push_back(fb[1]); }
    }
    int lost = 0; size_t first = 0;
    for (size_t e = 0; e < n; ++e) if (tree_of[e] < 0 && from[e] < 0 && !lost++) first = e;
    if (lost) bad(fmt("%d elements (for instance %zu) neither belong to the tree nor have been extruded from it", lost, first));
  }
  for (double x : m.pos.v) if (!std::isfinite(x)) { bad("vertex position not finite"); break; }
  for (double x : m.adj.v) if (!std::isfinite(x)) { bad("face warping not finite"); break; }
}

// geometric validity
static void check_shape(const Mesh_file& m, const std::string& where, bool whole_box)
{
  size_t n = m.verts.rows;
  int nd = m.n_dim, nfv = m.n_vert/2;
  auto bad = [&](const std::string& s) { out.violation(where + ": " + s); };
  std::vector<int> in_tree(n, 0);
  for (size_t i = 0; i < m.tree.rows; ++i) if (m.tree.row(i)[0] >= 0) in_tree[m.tree.row(i)[0]] = 1;
  auto p = [&](int e, int v) { return m.pos.row(m.verts.row(e)[v]); };
  auto face = [&](int e, int dim, int sign) {
    std::vector<int> r;
    for (int v = 0; v < m.n_vert; ++v) if (((v >> (nd - 1 - dim)) & 1) == sign) r.push_back(v);
    return r;
  };
  double tol = 1e-8*m.root_size;
  auto org = [&](int d) { return m.origin.v.size() > (size_t)d ? m.origin.v[d] : 0.; };
  // faces on the sides of the box lie there
  for (size_t i = 0; i < m.bnd.rows; ++i) {
    auto* c = m.bnd.row(i);
    if (c[1] >= 2*nd) continue;
    int d = c[1]/2; double want = org(d) + (c[1]%2)*m.root_size;
    for (int v : face(c[0], c[2], c[3])) if (std::abs(p(c[0], v)[d] - want) > tol) { bad(fmt("element %d has a face on side %d of the box, but a vertex %g away from it", c[0], c[1], std::abs(p(c[0], v)[d] - want))); break; }
  }
  // everything is inside the box
  for (size_t e = 0; e < n; ++e) for (int v = 0; v < m.n_vert; ++v) for (int d = 0; d < nd; ++d) if (p(e, v)[d] < org(d) - tol || p(e, v)[d] > org(d) + m.root_size + tol) { bad(fmt("element %zu reaches out of the box", e)); d = nd; v = m.n_vert; }
  // no gaps at hanging nodes: every vertex of the fine faces is on the coarse face
  for (size_t i = 0; i < m.ref.rows; ++i) {
    auto* c = m.ref.row(i);
    auto cf = face(c[0], c[7], c[9]);
    std::vector<std::vector<double>> ok; // positions of the (2 or 3)^(nd - 1) nodes of the coarse face
    int k = nd - 1, tot = 1; for (int q = 0; q < k; ++q) tot *= 3;
    for (int t = 0; t < tot; ++t) {
      std::vector<double> x(nd, 0.);
      for (int v = 0; v < nfv; ++v) {
        double w = 1; int tt = t;
        for (int q = 0; q < k; ++q) { double s = .5*(tt%3); tt /= 3; w *= ((v >> q) & 1) ? s : 1 - s; }
        for (int d = 0; d < nd; ++d) x[d] += w*p(c[0], cf[v])[d];
      }
      ok.push_back(x);
    }
    for (int f = 1; f < 5; ++f) if (c[f] >= 0) for (int v : face(c[f], c[8], c[10])) {
      double best = 1e300;
      for (auto& x : ok) { double r = 0; for (int d = 0; d < nd; ++d) r = std::max(r, std::abs(x[d] - p(c[f], v)[d])); best = std::min(best, r); }
      if (best > tol) { bad(fmt("gap between elements %d and %d of different refinement: a vertex is %g element sizes off", c[0], c[f], best/(m.root_size*std::ldexp(1., -m.lvl.v[c[0]])))); break; }
    }
  }
  // elements that have not been deformed are where their nominal position says
  // (three-dimensional hanging vertices of deformed neighbours are excepted)
  if (nd < 3) for (size_t e = 0; e < n; ++e) if (!m.def.v[e]) {
    double h = m.root_size*std::ldexp(1., -m.lvl.v[e]);
    for (int v = 0; v < m.n_vert; ++v) for (int d = 0; d < nd; ++d) {
      double want = org(d) + h*(m.nom.row(e)[d] + ((v >> (nd - 1 - d)) & 1));
      if (std::abs(p(e, v)[d] - want) > tol) { bad(fmt("Cartesian element %zu is not at its nominal position (vertex %d, direction %d, off by %g element sizes)", e, v, d, (p(e, v)[d] - want)/h)); v = 99; break; }
    }
  }
  if (whole_box) {
    double vol = 0;
    for (size_t e = 0; e < n; ++e) vol += std::ldexp(1., -nd*m.lvl.v[e]);
    if (std::abs(vol - 1) > 1e-12) bad(fmt("the elements fill %g of the box", vol));
    for (size_t e = 0; e < n; ++e) if (!in_tree[e]) { bad(fmt("element %zu does not belong to the tree", e)); break; }
  }
}

bool validate_mesh(const std::string& name, const std::string& path, bool whole_box)
{
  Mesh_file m;
  if (!m.load(path)) { out.violation(name + ": " + m.bad); return false; }
  check_topology(m, name);
  check_shape(m, name, whole_box);
  return true;
}

bool digest_mesh(const std::string& prefix, const std::string& mesh_path, const std::string& state_path, bool topo)
{
  Mesh_file m;
  if (!m.load(mesh_path)) { out.text(prefix + "unreadable mesh", m.bad); return false; }
  size_t n = m.verts.rows;
  if (topo) check_topology(m, prefix);
  // colours of the elements, refined by their neighbourhood
  std::vector<uint64_t> col(n), nxt(n);
  std::vector<int> in_tree(n, 0);
  for (size_t i = 0; i < m.tree.rows; ++i) if (m.tree.row(i)[0] >= 0) in_tree[m.tree.row(i)[0]] = 1;
  for (size_t e = 0; e < n; ++e) {
    uint64_t h = mix(mix(m.lvl.v[e], m.def.v[e]), in_tree[e] + 2);
    for (int d = 0; d < m.n_dim; ++d) h = mix(h, (uint64_t)(int64_t)m.nom.row(e)[d]);
    col[e] = h;
  }
  for (int round = 0; round < 4; ++round) {
    nxt = col;
    for (auto& c : nxt) c *= 3;
    auto link = [&](int a, int b, uint64_t l) { nxt[a] += mix(mix(l, col[b]), 11); };
    for (size_t i = 0; i < m.con.rows; ++i) { auto* c = m.con.row(i); link(c[0], c[1], c[2]*64 + c[3]*16 + c[4]*4 + c[5]*2); link(c[1], c[0], c[3]*64 + c[2]*16 + c[5]*4 + c[4]*2); }
    for (size_t i = 0; i < m.ref.rows; ++i) { auto* c = m.ref.row(i); for (int k = 0; k < 4; ++k) if (c[1 + k] >= 0) { uint64_t l = 100000 + k*4096 + c[5]*2048 + c[6]*1024 + c[7]*256 + c[8]*64 + c[9]*16 + c[10]*4; link(c[0], c[1 + k], l); link(c[1 + k], c[0], l + 1000000); } }
    for (size_t i = 0; i < m.bnd.rows; ++i) { auto* c = m.bnd.row(i); nxt[c[0]] += mix(c[1]*64 + c[2]*4 + c[3], 77); }
    for (size_t e = 0; e < n; ++e) col[e] = mix(nxt[e], round);
  }
  std::vector<int> ord(n);
  for (size_t i = 0; i < n; ++i) ord[i] = i;
  auto centre = [&](int e, int d) { double s = 0; for (int v = 0; v < m.n_vert; ++v) s += m.pos.row(m.verts.row(e)[v])[d]; return s; };
  std::sort(ord.begin(), ord.end(), [&](int a, int b) {
    if (col[a] != col[b]) return col[a] < col[b];
    for (int d = 0; d < m.n_dim; ++d) { double x = centre(a, d), y = centre(b, d); if (std::abs(x - y) > 1e-7*m.root_size) return x < y; }
    return a < b;
  });
  if (topo) { // which elements have several faces on the surface geometry?
    std::vector<int> faces(n, 0); bool any = false;
    for (size_t i = 0; i < m.bnd.rows; ++i) if (m.bnd.row(i)[1] == 2*m.n_dim) any = any || ++faces[m.bnd.row(i)[0]] > 1;
    if (any) out.probe("element with several surface faces");
  }
  std::vector<int64_t> lab;
  std::vector<double> x;
  for (int e : ord) {
    lab.push_back(m.lvl.v[e]); lab.push_back(m.def.v[e]); lab.push_back(in_tree[e]); for (int d = 0; d < m.n_dim; ++d) lab.push_back(m.nom.row(e)[d]);
    lab.push_back((int64_t)col[e]);
    for (int v = 0; v < m.n_vert; ++v) for (int d = 0; d < 3; ++d) x.push_back(m.pos.row(m.verts.row(e)[v])[d]);
  }
  out.ints(prefix + "counts", {m.n_dim, m.row_size, (int64_t)n, (int64_t)m.pos.rows, (int64_t)m.con.rows, (int64_t)m.ref.rows, (int64_t)m.bnd.rows, (int64_t)m.tree.rows, (int64_t)m.adj.rows});
  out.ints(prefix + "elements and connections", lab);
  out.reals(prefix + "vertex positions", x, m.root_size);
  if (m.tree.rows) {
    std::vector<int> rank(n); for (size_t i = 0; i < n; ++i) rank[ord[i]] = i;
    std::vector<int64_t> t; // depth-first description of the tree
    std::vector<int> stack {0}; size_t guard = 0;
    while (!stack.empty() && guard++ <= m.tree.rows) {
      int r = stack.back(); stack.pop_back();
      auto* p = m.tree.row(r);
      t.push_back(p[0] >= 0 ? rank[p[0]] : -1); t.push_back(p[1]); t.push_back(p[2] >= 0);
      for (int k = (int)m.tree.cols - 1; k >= 2; --k) if (p[k] >= 0) stack.push_back(p[k]);
    }
    out.ints(prefix + "tree", t);
  }
  {
    std::vector<int> row(n, -1);
    for (size_t i = 0; i < m.adj_ind.v.size(); ++i) row[m.adj_ind.v[i]] = i;
    std::vector<double> w;
    for (int e : ord) if (row[e] >= 0) for (size_t k = 0; k < m.adj.cols; ++k) w.push_back(m.adj.row(row[e])[k]);
    out.reals(prefix + "face warping", w, 1.);
  }
  if (!state_path.empty()) {
    hid_t f = H5Fopen(state_path.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT);
    if (f < 0) { out.text(prefix + "unreadable state", "can not be opened"); return false; }
    auto s = read_table<double>(f, "state");
    H5Fclose(f);
    if (!s.ok) { out.text(prefix + "unreadable state", "missing or unreadable"); return false; }
    if (s.rows != n) { out.text(prefix + "unreadable state", fmt("%d elements instead of %zu", (int)s.rows, n)); return false; }
    // one section per variable, because their magnitudes differ
    int nv = m.n_dim + 2; size_t nq = s.cols/nv;
    double big_rho = 0, big_e = 0;
    for (size_t e = 0; e < n; ++e) for (size_t k = 0; k < nq; ++k) {
      double r = s.row(e)[m.n_dim*nq + k], en = s.row(e)[(m.n_dim + 1)*nq + k];
      if (std::isfinite(r)) big_rho = std::max(big_rho, std::abs(r));
      if (std::isfinite(en)) big_e = std::max(big_e, std::abs(en));
    }
    for (int v = 0; v < nv; ++v) {
      std::vector<double> q;
      for (int e : ord) for (size_t k = 0; k < nq; ++k) q.push_back(s.row(e)[v*nq + k]);
      out.reals(prefix + fmt("state %s", v < m.n_dim ? "momentum" : v == m.n_dim ? "density" : "energy") + (v < m.n_dim ? std::to_string(v) : ""), q, v < m.n_dim ? std::sqrt(big_rho*big_e) : 0.);
    }
    if (s.cols%nv) out.integer(prefix + "state columns", s.cols);
  }
  return true;
}

// do a mesh and a state file belong to the same number of elements, dimensions and nodes?
int shapes_match(const std::string& mesh_path, const std::string& state_path)
{
  Mesh_file m;
  if (!m.load(mesh_path)) return -1;
  hid_t f = H5Fopen(state_path.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT);
  if (f < 0) return -1;
  int res = -1;
  hid_t d = H5Dopen2(f, "state", H5P_DEFAULT);
  if (d >= 0) {
    hid_t sp = H5Dget_space(d);
    hsize_t dims[8] {}; int r = H5Sget_simple_extent_ndims(sp); if (r <= 8) H5Sget_simple_extent_dims(sp, dims, nullptr);
    hsize_t nq = 1; for (int i = 0; i < m.n_dim; ++i) nq *= m.row_size;
    res = r == 3 && dims[0] == m.verts.rows && dims[1] == (hsize_t)(m.n_dim + 2) && dims[2] == nq;
    if (r == 3 && dims[0] == m.verts.rows && dims[1] != (hsize_t)(m.n_dim + 2) && dims[2] == nq) res = -1;
    H5Sclose(sp); H5Dclose(d);
  }
  H5Fclose(f);
  return res;
}

// generic HDF5 file
struct Walk { std::string prefix, why; bool ok = true, record; hid_t file; };
static herr_t visit(hid_t obj, const char* name, const H5O_info_t* info, void* data)
{
  Walk& w = *(Walk*)data;
  if (info->type != H5O_TYPE_DATASET) return 0;
  hid_t d = H5Dopen2(obj, name, H5P_DEFAULT);
  if (d < 0) { w.ok = false; w.why = std::string("can not open ") + name; return 0; }
  hid_t t = H5Dget_type(d), s = H5Dget_space(d);
  H5T_class_t cl = H5Tget_class(t);
  hssize_t n = H5Sget_simple_extent_npoints(s);
  if (n < 0 || n > 50000000) { w.ok = false; w.why = std::string("bad extent of ") + name; }
  else if (n > 0) {
    if (cl == H5T_INTEGER || cl == H5T_ENUM) {
      std::vector<int64_t> v(n);
      hid_t mt = H5T_NATIVE_INT64;
      if (cl == H5T_ENUM) { std::vector<unsigned char> b(n*H5Tget_size(t)); if (H5Dread(d, t, H5S_ALL, H5S_ALL, H5P_DEFAULT, b.data()) < 0) { w.ok = false; w.why = std::string("can not read ") + name; } for (int i = 0; i < n; ++i) v[i] = b[i*H5Tget_size(t)]; }
      else if (H5Dread(d, mt, H5S_ALL, H5S_ALL, H5P_DEFAULT, v.data()) < 0) { w.ok = false; w.why = std::string("can not read ") + name; }
      if (w.record) out.ints(w.prefix + name, v);
    } else if (cl == H5T_FLOAT) {
      std::vector<double> v(n);
      if (H5Dread(d, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, v.data()) < 0) { w.ok = false; w.why = std::string("can not read ") + name; }
      if (w.record) out.reals(w.prefix + name, v);
    }
  }
  H5Sclose(s); H5Tclose(t); H5Dclose(d);
  return 0;
}
bool digest_h5(const std::string& prefix, const std::string& path, bool record, std::string* why)
{
  H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr);
  hid_t f = H5Fopen(path.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT);
  if (f < 0) { if (why) *why = "can not be opened"; return false; }
  Walk w; w.prefix = prefix; w.record = record; w.file = f;
  if (H5Ovisit2(f, H5_INDEX_NAME, H5_ITER_NATIVE, visit, &w, H5O_INFO_BASIC) < 0 && w.ok) { w.ok = false; w.why = "can not be traversed"; }
  H5Fclose(f);
  if (why) *why = w.why;
  return w.ok;
}
}
