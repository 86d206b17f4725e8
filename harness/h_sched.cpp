// A07: every scenario is run under several iteration schedules and must give
// bitwise the same results.
#include "vpsched.hpp"
#include "vpmetric.hpp"
#include <sys/stat.h>
#include <dirent.h>
#include <fstream>
#include <Omega_h_adapt.hpp>
#include <Omega_h_amr.hpp>
#include <Omega_h_bbox.hpp>
#include <Omega_h_bipart.hpp>
#include <Omega_h_class.hpp>
#include <Omega_h_compare.hpp>
#include <Omega_h_confined.hpp>
#include <Omega_h_file.hpp>
#include <Omega_h_vtk.hpp>
#include <Omega_h_globals.hpp>
#include <Omega_h_graph.hpp>
#include <Omega_h_hilbert.hpp>
#include <Omega_h_inertia.hpp>
#include <Omega_h_indset.hpp>
#include <Omega_h_int_scan.hpp>
#include <Omega_h_laplace.hpp>
#include <Omega_h_linpart.hpp>
#include <Omega_h_metric.hpp>
#include <Omega_h_quality.hpp>
#include <Omega_h_random.hpp>
#include <Omega_h_recover.hpp>
#include <Omega_h_shape.hpp>
#include <Omega_h_simplify.hpp>
#include <Omega_h_sort.hpp>
#include <Omega_h_surface.hpp>
#include <Omega_h_owners.hpp>
using namespace vp;
namespace osh = Omega_h;
static Library* g_lib;

template <class T> static Read<T> rnd(Rng& r, LO n, int64_t lo, int64_t hi) { vector<T> v; for (LO i = 0; i < n; ++i) v.push_back(T(r.range(lo, hi))); return Read<T>(dev(v)); }
static Reals rndr(Rng& r, LO n, double lo, double hi) { vector<double> v; for (LO i = 0; i < n; ++i) v.push_back(r.real(lo, hi)); return Reals(dev(v)); }

static void rec_mesh(Rec& rec, Mesh& m, string const& pre) {
  auto p = dump_part(&m);
  rec.raw(pre + "coordinates", string(reinterpret_cast<char const*>(p.x.data()), p.x.size() * 8));
  for (int d = 0; d <= p.dim; ++d) {
    auto& e = p.e[d];
    auto nm = pre + fmt("dim %d ", d);
    rec.raw(nm + "globals", string(reinterpret_cast<char const*>(e.glob.data()), e.glob.size() * 8));
    rec.raw(nm + "vertices", string(reinterpret_cast<char const*>(e.verts.data()), e.verts.size() * 4));
    rec.raw(nm + "owner ranks", string(reinterpret_cast<char const*>(e.orank.data()), e.orank.size() * 4));
    rec.raw(nm + "owner indices", string(reinterpret_cast<char const*>(e.oidx.data()), e.oidx.size() * 4));
    for (auto& t : e.tags) rec.raw(nm + "tag " + t.name, t.bytes);
  }
  if (m.has_any_parents())
    for (int d = 0; d <= p.dim; ++d) { auto q = m.ask_parents(d); rec.arr(pre + fmt("parents %d", d), q.parent_idx); rec.arr(pre + fmt("parent codes %d", d), q.codes); }
}
static void rec_relations(Rec& rec, Mesh& m, string const& pre) {
  int dim = m.dim();
  for (int a = 0; a <= dim; ++a)
    for (int b = 0; b <= dim; ++b) {
      if (a > b) rec.adj(pre + fmt("down %d-%d", a, b), m.ask_down(a, b));
      if (a < b) rec.adj(pre + fmt("up %d-%d", a, b), m.ask_up(a, b));
    }
  if (m.nelems() == 0) return;
  rec.graph(pre + "vertex star", m.ask_star(0));
  if (m.family() != OMEGA_H_SIMPLEX) return;
  if (dim > 1) rec.graph(pre + "edge star", m.ask_star(1));
  rec.graph(pre + "dual", m.ask_dual());
}
static void put_tags(Rng& r, Mesh& m, bool reals = true) {
  for (int d = 0; d <= m.dim(); ++d) {
    LO n = m.nents(d);
    m.add_tag<I8>(d, "a8", 1, rnd<I8>(r, n, -100, 100));
    m.add_tag<I32>(d, "a32", 2, rnd<I32>(r, 2 * n, -1000000, 1000000));
    m.add_tag<I64>(d, "a64", 1, rnd<I64>(r, n, -1000000000000ll, 1000000000000ll));
    if (reals) m.add_tag<Real>(d, "ar", 3, rndr(r, 3 * n, -1e3, 1e3));
  }
}
static void rec_tree(Rec& rec, string const& dir, string const& pre) {
  vector<string> names;
  if (DIR* d = opendir(dir.c_str())) { while (auto e = readdir(d)) if (string(e->d_name) != "." && string(e->d_name) != "..") names.push_back(e->d_name); closedir(d); }
  std::sort(names.begin(), names.end());
  for (auto& n : names) {
    auto p = dir + "/" + n;
    struct stat st;
    stat(p.c_str(), &st);
    if (S_ISDIR(st.st_mode)) { rec_tree(rec, p, pre + n + "/"); continue; }
    std::ifstream f(p, std::ios::binary);
    std::stringstream ss; ss << f.rdbuf();
    rec.raw("file " + pre + n, ss.str());
  }
}

// ---------------------------------------------------------------- construction
static void case_build(Rng& r, int64_t) {
  bool hyper = r.chance(0.35);
  Soup s;
  GenOpts go;
  go.dim = r.chance(0.15) ? 1 : r.chance(0.5) ? 2 : 3;
  if (hyper) s = gen_hyper(r, 0, 0); else s = gen_soup(r, go);
  int dim = s.dim;
  auto world = g_lib->world();
  bool box = r.chance(0.15);
  uint64_t sd = r.u64();
  int n3[3]; for (auto& x : n3) x = int(r.range(1, 4));
  bool sym = r.chance(0.5);
  sample("build " + s.desc);
  under_schedules(r, "construction", [&](Rec& rec) {
    Rng q(sd);
    Mesh m(g_lib);
    if (box) {
      m = osh::build_box(world, hyper ? OMEGA_H_HYPERCUBE : OMEGA_H_SIMPLEX, 1., dim > 1 ? 1. : 0., dim > 2 ? 1. : 0., n3[0], dim > 1 ? n3[1] : 0, dim > 2 ? n3[2] : 0, sym && !hyper);
    } else {
      m = Mesh(g_lib);
      osh::build_from_elems_and_coords(&m, hyper ? OMEGA_H_HYPERCUBE : OMEGA_H_SIMPLEX, dim, LOs(dev(conv<LO>(s.ev))), Reals(dev(s.x)));
    }
    int c = int(q.below(3));
    if (!box) {
      if (hyper) c = 1 + int(q.below(2));
      if (c == 0) osh::classify_by_angles(&m, 0.6);
      else {
        osh::classify_elements(&m);
        m.add_tag<LO>(dim, "class_id", 1, rnd<LO>(q, m.nelems(), 1, 2));
        if (c == 2) {
          auto ex = osh::mark_exposed_sides(&m);
          osh::classify_sides_by_exposure(&m, ex);
        }
        osh::finalize_classification(&m);
      }
    }
    put_tags(q, m);
    if (q.chance(0.5)) osh::reorder_by_hilbert(&m);
    if (q.chance(0.5) && m.comm()->size() == 1) { osh::reorder_by_globals(&m); }
    rec_mesh(rec, m, "");
    rec_relations(rec, m, "");
    for (int d = 0; d <= dim; ++d) {
      rec.arr(fmt("by class %d", d), osh::mark_by_class_dim(&m, d, dim - 1 < 0 ? 0 : dim - 1));
      if (m.has_tag(dim, "class_id")) rec.arr(fmt("closure %d", d), osh::mark_class_closure(&m, d, dim, 1));
    }
    auto mk = rnd<I8>(q, m.nelems(), 0, 1);
    for (int d = 0; d < dim; ++d) {
      rec.arr(fmt("mark down %d", d), osh::mark_down(&m, dim, d, mk));
      auto ml = rnd<I8>(q, m.nents(d), 0, 1);
      rec.arr(fmt("mark up %d", d), osh::mark_up(&m, d, dim, ml));
      rec.arr(fmt("mark up all %d", d), osh::mark_up_all(&m, d, dim, ml));
    }
    rec.arr("exposed", osh::mark_exposed_sides(&m));
    rec.arr("hilbert", osh::hilbert::sort_coords(m.coords(), dim));
    if (!hyper) {
      rec.arr("sizes", m.ask_sizes());
      auto mt = osh::get_implied_isos(&m);
      m.add_tag<Real>(0, "metric", 1, mt);
      rec.arr("lengths", m.ask_lengths());
      rec.arr("qualities", m.ask_qualities());
      rec.arr("implied metrics", osh::get_implied_metrics(&m));
      if (world->size() == 1) {
        m.set_parting(OMEGA_H_GHOSTED, 1, false);
        rec.arr("slivers", osh::mark_sliver_layers(&m, 0.5, 2));
        rec.arr("layers", osh::mark_dual_layers(&m, mk, 2));
      }
      rec.arr("bridges", osh::find_bridge_edges(&m));
      if (dim > 1 && m.has_tag(0, "class_dim")) for (int d = 2; d <= dim; ++d) rec.arr(fmt("pinched %d", d), osh::get_pinched_angles(&m, d));
      auto cand = rnd<I8>(q, m.nents(0), 0, 1);
      auto qual = rnd<I32>(q, m.nents(0), 0, 3);
      vector<double> qd; for (auto x : host(qual)) qd.push_back(x);
      rec.arr("independent vertices", osh::find_indset(&m, 0, Reals(dev(qd)), cand));
      for (int d = 1; d <= dim; ++d) {
        if (d == 2 && dim == 3) continue;
        auto c2 = rnd<I8>(q, m.nents(d), 0, 1);
        rec.arr(fmt("independent %d", d), osh::find_indset(&m, d, rndr(q, m.nents(d), 0, 1), c2));
      }
    } else if (dim > 1) {
      auto ev = m.ask_verts_of(dim);
      rec.arr("simplices", dim == 2 ? osh::tris_from_quads(ev) : osh::tets_from_hexes(ev));
      if (q.chance(0.3) && m.comm()->size() == 1) {
        Mesh m2 = m;
        if (dim == 2) osh::tris_from_quads_symmetric(&m2); else osh::tets_from_hexes_symmetric(&m2);
        rec_mesh(rec, m2, "symmetric simplices ");
      }
    }
  });
}

// ---------------------------------------------------------------- distribution
static void case_dist(Rng& r, int64_t) {
  bool hyper = r.chance(0.3);
  GenOpts go;
  go.dim = r.chance(0.15) ? 1 : r.chance(0.5) ? 2 : 3;
  Soup s = hyper ? gen_hyper(r) : gen_soup(r, go);
  int dim = s.dim;
  Model mod;
  if (!hyper) mod = make_model(s);
  auto world = g_lib->world();
  uint64_t sd = r.u64();
  sample("distribution " + s.desc);
  under_schedules(r, "distribution", [&](Rec& rec) {
    Rng q(sd);
    Rng tq(q.u64());
    Mesh m = distribute_built(world, [&] {
      Mesh x(g_lib);
      if (hyper) {
        osh::build_from_elems_and_coords(&x, OMEGA_H_HYPERCUBE, dim, LOs(dev(conv<LO>(s.ev))), Reals(dev(s.x)));
        osh::classify_elements(&x);
        x.add_tag<LO>(dim, "class_id", 1, LOs(x.nelems(), 1));
        osh::finalize_classification(&x);
        for (int d = 0; d <= dim; ++d) x.set_tag<LO>(d, "class_id", osh::each_max_with(x.get_array<LO>(d, "class_id"), 1));
      } else x = build_serial(g_lib->self(), s, &mod);
      put_tags(tq, x);
      return x;
    }, q, int(q.below(4)));
    rec_mesh(rec, m, "scattered ");
    bool pow2 = (world->size() & (world->size() - 1)) == 0;
    int steps = int(q.range(1, 4));
    for (int k = 0; k < steps; ++k) {
      int op = int(q.below(6));
      auto pre = fmt("step %d (%d) ", k, op);
      if (op == 0 && pow2) { m.set_parting(OMEGA_H_ELEM_BASED); m.balance(); }
      else if (op == 1) m.set_parting(OMEGA_H_GHOSTED, int(q.range(1, 3)), false);
      else if (op == 2) m.set_parting(OMEGA_H_VERT_BASED);
      else if (op == 3) { m.set_parting(OMEGA_H_ELEM_BASED); }
      else if (op == 4) { m.set_parting(OMEGA_H_ELEM_BASED); scatter(m, q, int(q.below(4))); }
      else {
        for (int d = 0; d <= dim; ++d) {
          // integers: sums of reals over copies may depend on the order of arrival
          Rng lr(q.u64() + uint64_t(ctx().rank) * 77);
          auto a = rnd<I32>(lr, m.nents(d) * 2, -1000, 1000);
          rec.arr(pre + "sync", m.sync_array(d, a, 2));
          rec.arr(pre + "sum", m.reduce_array(d, a, 2, OMEGA_H_SUM));
          auto b = rndr(lr, m.nents(d), -5, 5);
          rec.arr(pre + "max", m.reduce_array(d, b, 1, OMEGA_H_MAX));
          rec.arr(pre + "min", m.reduce_array(d, b, 1, OMEGA_H_MIN));
          rec.arr(pre + "real sum", m.reduce_array(d, b, 1, OMEGA_H_SUM));
          rec.pod(pre + "repro", osh::repro_sum_owned(&m, d, b));
          rec.arr(pre + "owned", m.owned_array(d, b, 1));
          rec.arr(pre + "rescan", osh::rescan_globals(&m, osh::Read<I8>(rnd<I8>(lr, m.nents(d), 0, 4))));
        }
      }
      rec_mesh(rec, m, pre);
      if (q.chance(0.5)) rec_relations(rec, m, pre);
      if (m.parting() == OMEGA_H_ELEM_BASED) rec.pod(pre + "imbalance", m.imbalance());
    }
    if (m.parting() == OMEGA_H_GHOSTED && m.family() == OMEGA_H_SIMPLEX)
      for (int d = 0; d <= dim; ++d) {
        Rng lr(q.u64());
        if (d == 2 && dim == 3) continue;
        auto cand = m.sync_array(d, rnd<I8>(lr, m.nents(d), 0, 1), 1);
        auto ql = m.sync_array(d, rndr(lr, m.nents(d), 0, 1), 1);
        rec.arr(fmt("independent %d", d), osh::find_indset(&m, d, ql, cand));
      }
  });
}

// ---------------------------------------------------------------- refinement trees
static void case_amr(Rng& r, int64_t) {
  auto world = g_lib->world();
  int dim = r.chance(0.6) ? 2 : 3;
  Soup s = gen_hyper(r, dim, dim == 2 ? 3 : 2);
  uint64_t sd = r.u64();
  bool par = world->size() > 1;
  sample("trees " + s.desc);
  under_schedules(r, "refinement trees", [&](Rec& rec) {
    Rng q(sd);
    Rng tq(q.u64());
    osh::TransferOpts xo;
    auto build = [&] {
      Mesh x(g_lib);
      osh::build_from_elems_and_coords(&x, OMEGA_H_HYPERCUBE, dim, LOs(dev(conv<LO>(s.ev))), Reals(dev(s.x)));
      osh::classify_elements(&x);
      x.add_tag<LO>(dim, "class_id", 1, LOs(x.nelems(), 1));
      osh::finalize_classification(&x);
      put_tags(tq, x, false);
      x.add_tag<Real>(0, "f", 2, rndr(tq, 2 * x.nverts(), -1, 1));
      return x;
    };
    for (auto n : {"a8", "a32", "a64"}) xo.type_map[n] = OMEGA_H_INHERIT;
    xo.type_map["f"] = OMEGA_H_LINEAR_INTERP;
    Mesh m(g_lib);
    if (par) m = distribute_built(world, build, q, int(q.below(4)));
    else { m = build(); m.set_parting(OMEGA_H_ELEM_BASED); }
    int nr = par ? 1 : int(q.range(1, dim == 2 ? 4 : 2));
    for (int k = 0; k < nr; ++k) {
      uint64_t salt = q.u64();
      double p = q.real(0.1, 0.7);
      auto gl = host(m.globals(dim));
      auto leaf = host(m.ask_leaves(dim));
      vector<I8> mk;
      for (size_t i = 0; i < gl.size(); ++i) mk.push_back(leaf[i] && double(mix64(salt ^ uint64_t(gl[i])) % 1000) < 1000 * p);
      Bytes marks(dev(mk));
      int bridge = int(q.range(1, dim - 1));
      if (!par) { marks = osh::amr::enforce_2to1_refine(&m, bridge, marks); rec.arr(fmt("marks %d", k), marks); }
      if (m.nelems() > 2000) break;
      osh::amr::refine(&m, marks, xo);
      rec_mesh(rec, m, fmt("refinement %d ", k));
      for (int d = 0; d <= dim; ++d) {
        rec.arr(fmt("levels %d %d", k, d), m.ask_levels(d));
        rec.arr(fmt("leaves %d %d", k, d), m.ask_leaves(d));
        for (int e = 0; e <= d; ++e) { auto c = m.ask_children(d, e); rec.graph(fmt("children %d %d %d", k, d, e), c); rec.arr(fmt("child codes %d %d %d", k, d, e), c.codes); }
      }
      if (!par && k + 1 == nr && q.chance(0.6)) {
        // undo a random subset of the finest families that no leaf depends on: all of the last level
        auto lv = host(m.ask_levels(dim));
        auto lf = host(m.ask_leaves(dim));
        auto ch = m.ask_children(dim, dim);
        auto off = host(ch.a2ab); auto ab = host(ch.ab2b);
        int mx = 0; for (int v : lv) mx = std::max(mx, v);
        vector<I8> dm(lv.size(), 0);
        for (size_t e = 0; e < lv.size(); ++e) {
          if (lf[e] || lv[e] != mx - 1) continue;
          bool all = true;
          for (LO j = off[e]; j < off[e + 1]; ++j) all = all && lf[size_t(ab[size_t(j)])];
          if (all) dm[e] = 1;
        }
        osh::amr::derefine(&m, Bytes(dev(dm)), xo);
        rec_mesh(rec, m, "derefinement ");
      }
    }
    if (!par && q.chance(0.5)) { osh::amr::remove_non_leaf_uses(&m); rec_mesh(rec, m, "leaves only "); }
  });
}

// ---------------------------------------------------------------- files
static void rmtree(string const& p) {
  if (DIR* d = opendir(p.c_str())) {
    while (auto e = readdir(d)) { string n = e->d_name; if (n != "." && n != "..") rmtree(p + "/" + n); }
    closedir(d);
    rmdir(p.c_str());
  } else unlink(p.c_str());
}
static void case_file(Rng& r, int64_t) {
  bool hyper = r.chance(0.3);
  GenOpts go;
  go.dim = r.chance(0.15) ? 1 : r.chance(0.5) ? 2 : 3;
  Soup s = hyper ? gen_hyper(r) : gen_soup(r, go);
  int dim = s.dim;
  Model mod;
  if (!hyper) mod = make_model(s);
  auto world = g_lib->world();
  uint64_t sd = r.u64();
  sample("files " + s.desc);
  int run = 0;
  under_schedules(r, "files", [&](Rec& rec) {
    Rng q(sd);
    Rng tq(q.u64());
    auto dir = ctx().tmp + fmt("/f%lld_%d", (long long)ctx().cur, run++);
    if (ctx().rank == 0) mkdir(dir.c_str(), 0755);
    MPI_Barrier(MPI_COMM_WORLD);
    {
    Mesh m = distribute_built(world, [&] {
      Mesh x(g_lib);
      if (hyper) {
        osh::build_from_elems_and_coords(&x, OMEGA_H_HYPERCUBE, dim, LOs(dev(conv<LO>(s.ev))), Reals(dev(s.x)));
        osh::classify_elements(&x);
        x.add_tag<LO>(dim, "class_id", 1, LOs(x.nelems(), 1));
        osh::finalize_classification(&x);
        for (int d = 0; d <= dim; ++d) x.set_tag<LO>(d, "class_id", osh::each_max_with(x.get_array<LO>(d, "class_id"), 1));
      } else x = build_serial(g_lib->self(), s, &mod);
      put_tags(tq, x);
      return x;
    }, q, int(q.below(4)));
    if (q.chance(0.3)) m.set_parting(OMEGA_H_GHOSTED, 1, false);
    osh::binary::write(dir + "/a.osh", &m);
    int cd = q.chance(0.6) || dim < 2 ? dim : dim - 1;
    bool zip = q.chance(0.5), vtk = dim > 1 || !hyper;
    if (vtk) osh::vtk::write_parallel(dir + "/a.vtk", &m, cd, zip);
    if (world->size() == 1) {
      osh::gmsh::write(osh::filesystem::path(dir + "/a.msh"), &m);
    }
    MPI_Barrier(MPI_COMM_WORLD);
    if (ctx().rank == 0) rec_tree(rec, dir, "");
    Mesh b = osh::binary::read(dir + "/a.osh", world);
    rec_mesh(rec, b, "binary read ");
    if (world->size() == 1) {
      Mesh c = osh::gmsh::read(osh::filesystem::path(dir + "/a.msh"), world);
      rec_mesh(rec, c, "gmsh read ");
    }
    Mesh v(g_lib);
    if (vtk && cd == dim) osh::vtk::read_parallel(dir + "/a.vtk/pieces.pvtu", world, &v);
    if (vtk && cd == dim) rec_mesh(rec, v, "vtk read ");
    }
    MPI_Barrier(MPI_COMM_WORLD);
    if (ctx().rank == 0) rmtree(dir);
  });
}

// ---------------------------------------------------------------- arrays
static void case_prim(Rng& r, int64_t) {
  auto world = g_lib->world();
  uint64_t sd = r.u64();
  LO n = LO(r.range(0, r.chance(0.2) ? 6000 : 200)), nb = LO(r.range(1, 1 + n));
  sample(fmt("arrays of %d", n));
  under_schedules(r, "array functions", [&](Rec& rec) {
    Rng q(sd + uint64_t(ctx().rank));
    auto a = rnd<I32>(q, n, -50, 50);
    auto a2b = rnd<LO>(q, n, 0, nb - 1);
    auto x = rndr(q, n, -10, 10), y = rndr(q, n, -10, 10);
    auto mk = rnd<I8>(q, n, 0, 1);
    int w = int(q.range(1, 3));
    for (int k = 1; k <= 3; ++k) {
      rec.arr(fmt("sort32 x%d", k), osh::sort_by_keys(rnd<I32>(q, n * k, 0, 5), k));
      rec.arr(fmt("sort64 x%d", k), osh::sort_by_keys(rnd<I64>(q, n * k, -3, 3), k));
    }
    {
      LOs p, f; osh::Read<I32> u;
      auto sm = rnd<I32>(q, n, 10, 20);
      osh::sort_small_range(sm, &p, &f, &u);
      rec.arr("small perm", p); rec.arr("small fan", f); rec.arr("small uniq", u);
    }
    auto g = osh::invert_map_by_sorting(a2b, nb);
    rec.graph("invert by sorting", g);
    auto g2 = osh::invert_map_by_atomics(a2b, nb);
    rec.arr("invert by atomics offsets", g2.a2ab);
    {  // the order within a row is left open, so rows are compared as sets
      auto o = host(g2.a2ab); auto l = host(g2.ab2b);
      for (LO b = 0; b < nb; ++b) std::sort(l.begin() + o[size_t(b)], l.begin() + o[size_t(b) + 1]);
      rec.arr("invert by atomics rows", LOs(dev(l)));
    }
    rec.arr("fan sum", osh::fan_reduce(g.a2ab, a, 1, OMEGA_H_SUM));
    rec.arr("fan max", osh::fan_reduce(g.a2ab, x, 1, OMEGA_H_MAX));
    rec.arr("fan min", osh::fan_reduce(g.a2ab, x, 1, OMEGA_H_MIN));
    if (n) rec.arr("graph sum", osh::graph_reduce(g, x, 1, OMEGA_H_SUM));
    rec.graph("filtered edges", osh::filter_graph_edges(g, mk));
    {
      auto sq = osh::invert_map_by_sorting(rnd<LO>(q, nb, 0, nb - 1), nb);
      rec.graph("filtered nodes", osh::filter_graph_nodes(sq, rnd<I8>(q, nb, 0, 1)));
    }
    rec.graph("two graphs", osh::add_self_edges(g));
    rec.arr("scan", osh::offset_scan(mk));
    rec.arr("collect", osh::collect_marked(mk));
    rec.arr("invert marks", osh::invert_marks(mk));
    rec.arr("mark image", osh::mark_image(a2b, nb));
    rec.arr("fan preimage", osh::mark_fan_preimage(g.a2ab));
    rec.arr("invert fan", osh::invert_fan(g.a2ab));
    rec.arr("degrees", osh::get_degrees(g.a2ab));
    auto perm = osh::sort_by_keys(rnd<I64>(q, n, -1000000, 1000000));
    rec.arr("inverse", osh::invert_permutation(perm));
    auto xw = rndr(q, n * w, -1, 1);
    rec.arr("permute", osh::permute(xw, perm, w));
    rec.arr("unmap", Reals(osh::unmap(perm, xw, w)));
    rec.arr("expand", osh::expand(osh::Read<I32>(rnd<I32>(q, nb * w, -9, 9)), g.a2ab, w));
    rec.arr("map onto", osh::map_onto(xw, perm, n, -1.0, w));
    rec.arr("compound", osh::compound_maps(perm, a2b));
    rec.arr("funnel", osh::invert_funnel(LOs(osh::unmap(osh::sort_by_keys(a2b), a2b, 1)), nb));
    {
      auto cm = osh::collect_marked(mk);
      rec.arr("injective", osh::invert_injective_map(cm, n));
    }
    {
      osh::Write<Real> wr(n * w, 1.0);
      osh::add_into(xw, perm, wr, w);
      rec.arr("add into", Reals(wr));
      osh::map_into_range(Reals(xw), 0, n, wr, w);
      rec.arr("map into range", Reals(wr));
    }
    rec.pod("repro sum", osh::repro_sum(x));
    rec.pod("sum", osh::get_sum(a));
    if (n) { rec.pod("min", osh::get_min(x)); rec.pod("max", osh::get_max(x)); }
    rec.pod("world sum", osh::repro_sum(world, x));
    rec.pod("sorted", osh::is_sorted(a));
    rec.pod("last", osh::find_last(a, 3));
    rec.arr("multiply", Reals(osh::multiply_each(x, y)));
    rec.arr("min each", osh::min_each(x, y));
    rec.arr("less", osh::lt_each(x, y));
    rec.arr("ternary", osh::ternary_each(mk, x, y));
    rec.arr("interleave", osh::interleave(vector<Reals>{x, y}));
    rec.arr("coalesce", osh::coalesce(vector<Reals>{x, y}));
    rec.arr("component", osh::get_component(xw, w, w - 1));
    rec.arr("between", osh::interpolate_between(x, y, 0.3));
    rec.arr("random", osh::unit_uniform_random_reals_from_globals(osh::GOs(rnd<I64>(q, n, 0, 1 << 30)), 5, 7));
    rec.arr("hilbert", osh::hilbert::sort_coords(rndr(q, n * 3, -1, 1), 3));
    rec.arr("hilbert 2", osh::hilbert::sort_coords(rndr(q, n * 2, -1, 1), 2));
    if (n > 3) {
      osh::Vector<3> ax = osh::vector_3(0, 0, 0);
      rec.arr("bisection", osh::inertia::mark_bisection(world, rndr(q, n * 3, -1, 1), rndr(q, n, 0.5, 1), 0.05, ax));
      rec.pod("axis", ax);
      bool pow2 = (world->size() & (world->size() - 1)) == 0;
      if (pow2 && world->size() > 1) {
        auto d = osh::bi_partition(world, mk);
        rec.arr("bipartition", d.exch(x, 1));
      }
    }
    // an exchange pattern: every rank sends each item to some rank
    {
      auto dest = rnd<I32>(q, n, 0, world->size() - 1);
      osh::Dist d;
      d.set_parent_comm(world);
      d.set_dest_ranks(dest);
      auto got = d.exch(osh::Read<I64>(rnd<I64>(q, n, -1000000, 1000000)), 1);
      rec.arr("received", got);
      auto tot = got.size();
      rec.arr("returned", d.invert().exch(osh::Read<I64>(rnd<I64>(q, tot, 0, 1000)), 1));
    }
  });
}

// ---------------------------------------------------------------- metrics
// every vertex is joined to an interior one through elements
static bool mod_interior(Model const& m, int dim) {
  std::map<int, int> id;
  UF uf;
  for (auto& kv : m.cls[0]) id[kv.first[0]] = uf.add();
  for (auto& kv : m.cls[dim]) for (int v : kv.first) uf.join(id[kv.first[0]], id[v]);
  std::set<int> good;
  for (auto& kv : m.cls[0]) if (kv.second.first == dim) good.insert(uf.find(id[kv.first[0]]));
  for (auto& kv : m.cls[0]) if (!good.count(uf.find(id[kv.first[0]]))) return false;
  return true;
}
static void case_metric(Rng& r, int64_t) {
  GenOpts go;
  go.dim = r.chance(0.6) ? 2 : 3;
  go.min_cells = 2;
  Soup s = gen_soup(r, go);
  Model mod = make_model(s);
  int dim = s.dim;
  auto world = g_lib->world();
  uint64_t sd = r.u64();
  int style = int(r.below(4));
  sample("metrics " + s.desc);
  under_schedules(r, "metrics", [&](Rec& rec) {
    Rng q(sd);
    Rng sr(q.u64());
    Mesh m = distribute(world, s, mod, sr, style);
    if (world->size() > 1 || q.chance(0.5)) m.set_parting(OMEGA_H_GHOSTED, 1, false);
    LO nv = m.nverts();
    auto field = [&](double c0, double c1) {
      auto x = host(m.coords());
      vector<double> v;
      for (LO i = 0; i < nv; ++i) v.push_back(std::sin(c0 * x[size_t(i * dim)]) + c1 * x[size_t(i * dim + 1)] * x[size_t(i * dim)]);
      return Reals(dev(v));
    };
    auto f = field(q.real(0.5, 2), q.real(-1, 1));
    m.add_tag<Real>(0, "f", 1, f);
    rec.arr("element gradients", osh::derive_element_gradients(&m, f));
    auto iso = osh::get_implied_isos(&m);
    auto an = osh::get_implied_metrics(&m);
    rec.arr("implied isotropic", iso);
    rec.arr("implied", an);
    rec.arr("pure implied", osh::get_pure_implied_metrics(&m));
    rec.arr("smooth", osh::smooth_metric_once(&m, an));
    rec.arr("midpoint", osh::get_mident_metrics(&m, 1, an));
    rec.arr("clamped", osh::clamp_metrics(nv, an, 0.3, 0.5));
    rec.arr("intersected", osh::intersect_metrics(nv, an, osh::metrics_from_isos(dim, iso)));
    rec.arr("linear", osh::linearize_metrics(nv, an));
    rec.arr("between", osh::interpolate_between_metrics(nv, an, osh::metrics_from_isos(dim, iso), 0.25));
    rec.arr("isotropy", osh::apply_isotropy(nv, an, OMEGA_H_ISO_LENGTH));
    rec.pod("expected", osh::get_expected_nelems(&m, an));
    rec.arr("limited", osh::limit_metric_gradation(&m, iso, q.real(0.5, 2), 1e-3, false));
    rec.arr("limited anisotropic", osh::limit_metric_gradation(&m, an, q.real(0.8, 2), 1e-2, false));
    rec.arr("averaged", osh::project_by_average(&m, m.ask_sizes()));
    rec.arr("average field", osh::average_field(&m, dim, 1, f));
    rec.arr("laplace", osh::solve_laplacian(&m, f, 1, 1e-3));
    if (world->size() == 1) {
      auto si = osh::get_surface_info(&m);
      rec.arr("surface vertices", si.surf_vert2vert);
      rec.arr("surface normals", si.surf_vert_normals);
      rec.arr("curve tangents", si.curv_vert_tangents);
      rec.arr("curvatures", osh::get_vert_curvatures(&m, si));
    }
    osh::MetricInput in;
    in.verbose = false;
    if (world->size() == 1 && mod_interior(mod, dim)) in.sources.push_back({OMEGA_H_VARIATION, 0.5, "f", OMEGA_H_ANISOTROPIC, OMEGA_H_ABSOLUTE});
    in.sources.push_back({OMEGA_H_IMPLIED, 1.0});
    in.should_limit_lengths = q.chance(0.5); in.min_length = 0.2; in.max_length = 2;
    in.should_limit_gradation = q.chance(0.5); in.max_gradation_rate = 1; in.gradation_convergence_tolerance = 1e-2;
    rec.arr("generated", osh::generate_metrics(&m, in));
    rec_mesh(rec, m, "");
  });
}

int main(int argc, char** argv) {
  parse_args(argc, argv);
  LibArgs la(argc, argv);
  Library lib(&la.argc, &la.argv);
  g_lib = &lib;
  ctx().rank = lib.world()->rank(); ctx().size = lib.world()->size();
  string m = ctx().mode;
  return run_cases([&](Rng& r, int64_t i) {
    if (m == "build") case_build(r, i);
    else if (m == "dist") case_dist(r, i);
    else if (m == "amr") case_amr(r, i);
    else if (m == "file") case_file(r, i);
    else if (m == "prim") case_prim(r, i);
    else if (m == "metric") case_metric(r, i);
  });
}
