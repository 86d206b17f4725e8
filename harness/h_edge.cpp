// E01: the smallest meshes, ranks without elements, many operations in random
// order, rejected calls in between. The oracle is the sanitizer (and that valid
// operations succeed and rejected ones leave the mesh usable).
#include "vpmetric.hpp"
#include <sys/stat.h>
#include <Omega_h_adapt.hpp>
#include <Omega_h_amr.hpp>
#include <Omega_h_array_ops.hpp>
#include <Omega_h_bbox.hpp>
#include <Omega_h_class.hpp>
#include <Omega_h_compare.hpp>
#include <Omega_h_confined.hpp>
#include <Omega_h_file.hpp>
#include <Omega_h_fit.hpp>
#include <Omega_h_globals.hpp>
#include <Omega_h_hilbert.hpp>
#include <Omega_h_histogram.hpp>
#include <Omega_h_indset.hpp>
#include <Omega_h_laplace.hpp>
#include <Omega_h_linpart.hpp>
#include <Omega_h_metric.hpp>
#include <Omega_h_migrate.hpp>
#include <Omega_h_owners.hpp>
#include <Omega_h_print.hpp>
#include <Omega_h_quality.hpp>
#include <Omega_h_random.hpp>
#include <Omega_h_recover.hpp>
#include <Omega_h_scatterplot.hpp>
#include <Omega_h_shape.hpp>
#include <Omega_h_simplify.hpp>
#include <Omega_h_surface.hpp>
#include <Omega_h_vtk.hpp>
#include <iostream>
#include <fstream>
using namespace vp;
namespace osh = Omega_h;
static Library* g_lib;

struct St {
  Rng& r;
  Mesh& m;
  bool hyper;
  string dir;
  int dim() const { return m.dim(); }
};
struct Op { char const* name; std::function<bool(St&)> ok; std::function<void(St&)> run; };

static Reals field(Mesh& m, int d, int nc, uint64_t s) {
  Rng q(s);
  auto g = host(m.globals(d));
  vector<double> v;
  for (size_t i = 0; i < g.size(); ++i) for (int c = 0; c < nc; ++c) v.push_back(std::sin(double(g[i]) * 1.3 + c + double(s % 97)));
  return Reals(dev(v));
}
static bool any(St&) { return true; }
static bool simp(St& s) { return !s.hyper; }
static bool simp_elem(St& s) { return !s.hyper && s.m.parting() == OMEGA_H_ELEM_BASED; }
static bool ghosted(St& s) { return s.m.parting() == OMEGA_H_GHOSTED; }
static void out(string const& s) { count("bytes_printed", int64_t(s.size())); }

static vector<Op> const& ops() {
  static vector<Op> const v{
    {"element based", any, [](St& s) { s.m.set_parting(OMEGA_H_ELEM_BASED); }},
    {"ghosted", any, [](St& s) { s.m.set_parting(OMEGA_H_GHOSTED, int(s.r.range(1, 3)), false); }},
    {"vertex based", any, [](St& s) { s.m.set_parting(OMEGA_H_VERT_BASED, 1, false); }},
    {"balance", [](St& s) { return (s.m.comm()->size() & (s.m.comm()->size() - 1)) == 0; }, [](St& s) { s.m.balance(); }},
    {"relations", any, [](St& s) {
      for (int a = 0; a <= s.dim(); ++a) for (int b = 0; b <= s.dim(); ++b) { if (a > b) s.m.ask_down(a, b); if (a < b) s.m.ask_up(a, b); }
      s.m.ask_elem_verts(); s.m.ask_star(0);
      if (!s.hyper) { if (s.dim() > 1) s.m.ask_star(1); s.m.ask_dual(); } }},
    {"owners", any, [](St& s) { for (int d = 0; d <= s.dim(); ++d) { s.m.ask_owners(d); s.m.owned(d); s.m.ask_dist(d); s.m.nents_owned(d); s.m.nglobal_ents(d); s.m.imbalance(d); s.m.ghosted_ratio(d); s.m.globals(d); } }},
    {"tags", any, [](St& s) {
      int d = int(s.r.below(uint64_t(s.dim() + 1)));
      string n = fmt("t%d", int(s.r.below(3)));
      if (s.m.has_tag(d, n)) s.m.remove_tag(d, n);
      int nc = int(s.r.range(1, 4));
      s.m.add_tag<Real>(d, n, nc, field(s.m, d, nc, s.r.u64()));
      s.m.sync_tag(d, n);
      if (s.r.chance(0.5)) { s.m.reduce_tag(d, n, OMEGA_H_SUM); s.m.sync_tag(d, n); } }},
    {"reduced to owners", any, [](St& s) {
      int d = int(s.r.below(uint64_t(s.dim() + 1)));
      auto nc = int(s.r.range(1, 3));
      auto f = field(s.m, d, nc, 5);
      auto o = s.m.ask_owners(d);
      auto back = osh::Dist(s.m.comm(), o, s.m.nents(d));
      auto x = back.exch_reduce(f, nc, OMEGA_H_MAX);
      count("reduced", x.size());
      s.m.owned_array(d, f, nc); }},
    {"reduce data", any, [](St& s) {
      int d = int(s.r.below(uint64_t(s.dim() + 1)));
      auto nc = int(s.r.range(1, 3));
      auto f = field(s.m, d, nc, 5);
      auto x = osh::reduce_data_to_owners(f, osh::copies_to_linear_owners(s.m.comm(), s.m.globals(d)), nc);
      count("reduced", x.size()); }},
    {"compare", any, [](St& s) {
      auto o = osh::MeshCompareOpts::init(&s.m, osh::VarCompareOpts::defaults());
      Mesh c = s.m;
      VP_CHECK(osh::compare_meshes(&s.m, &c, o, false, s.r.chance(0.5)) == OMEGA_H_SAME, "same", "a mesh differs from its copy"); }},
    {"sizes", simp, [](St& s) { s.m.ask_sizes(); osh::measure_edges_real(&s.m); osh::measure_qualities(&s.m, osh::get_pure_implied_metrics(&s.m)); for (int d = 1; d <= s.dim(); ++d) osh::mark_exposed_sides(&s.m); }},
    {"box", any, [](St& s) { if (s.dim() == 1) osh::get_bounding_box<1>(&s.m); if (s.dim() == 2) osh::get_bounding_box<2>(&s.m); if (s.dim() == 3) osh::get_bounding_box<3>(&s.m); }},
    {"marks", any, [](St& s) {
      auto x = osh::mark_exposed_sides(&s.m);
      for (int d = 0; d + 1 < s.dim(); ++d) { auto q = osh::mark_down(&s.m, s.dim() - 1, d, x); osh::count_owned_marks(&s.m, d, q); osh::mark_up(&s.m, d, s.dim(), q); osh::collect_marked(q); }
      for (int d = 0; d <= s.dim(); ++d) { osh::mark_by_class_dim(&s.m, d, d); osh::mark_by_class(&s.m, d, s.dim(), 1); osh::mark_class_closure(&s.m, d, s.dim(), 1); } }},
    {"dual layers", [](St& s) { return !s.hyper && ghosted(s); }, [](St& s) { osh::mark_dual_layers(&s.m, Read<I8>(s.m.nelems(), 1), 2); }},
    {"sliver layers", [](St& s) { return !s.hyper && ghosted(s); }, [](St& s) { if (!s.m.has_tag(0, "metric")) osh::add_implied_metric_tag(&s.m); osh::mark_sliver_layers(&s.m, 0.9, 1); }},
    {"independent set", [](St& s) { return !s.hyper && ghosted(s) && s.dim() > 1; }, [](St& s) { osh::find_indset(&s.m, 1, field(s.m, 1, 1, 3), Read<I8>(s.m.nents(1), 1)); osh::find_indset(&s.m, 0, field(s.m, 0, 1, 3), Read<I8>(s.m.nverts(), 1)); }},
    {"implied", simp, [](St& s) { auto a = osh::get_implied_metrics(&s.m); auto b = osh::get_implied_isos(&s.m); osh::get_complexity_per_elem(&s.m, a); osh::get_nelems_per_elem(&s.m, b); osh::get_expected_nelems(&s.m, a); osh::get_metric_scalar_for_nelems(&s.m, a, 10); }},
    {"gradation", [](St& s) { return !s.hyper && ghosted(s); }, [](St& s) { osh::limit_metric_gradation(&s.m, osh::get_implied_isos(&s.m), 1.0, 1e-3, false); osh::smooth_metric_once(&s.m, osh::get_implied_metrics(&s.m)); }},
    {"derivatives", [](St& s) { return simp(s) && ghosted(s); }, [](St& s) { auto f = field(s.m, 0, 1, 2); auto g = osh::derive_element_gradients(&s.m, f); osh::project_by_average(&s.m, s.m.ask_sizes()); (void)g; }},
    {"average field", any, [](St& s) { for (int d = 1; d <= s.dim(); ++d) osh::average_field(&s.m, d, 2, field(s.m, 0, 2, 4)); }},
    {"laplace", ghosted, [](St& s) { osh::solve_laplacian(&s.m, field(s.m, 0, 1, 2), 1, 1e-2); }},
    {"pads", [](St& s) { return !s.hyper && s.dim() > 1; }, [](St& s) { auto b = osh::find_bridge_edges(&s.m); for (int d = 1; d <= s.dim(); ++d) osh::get_pad_dists(&s.m, d, b); for (int d = 2; d <= s.dim(); ++d) osh::get_pinched_angles(&s.m, d); }},
    {"surface", [](St& s) { return !s.hyper && s.dim() > 1 && s.m.comm()->size() == 1; }, [](St& s) { auto i = osh::get_surface_info(&s.m); osh::get_vert_curvatures(&s.m, i); osh::get_curvature_metrics(&s.m, 0.5); }},
    {"angles", [](St& s) { return !s.hyper && s.m.comm()->size() == 1; }, [](St& s) { Mesh c = s.m; for (int d = 0; d <= s.dim(); ++d) for (auto n : {"class_dim", "class_id"}) if (c.has_tag(d, n)) c.remove_tag(d, n); osh::classify_by_angles(&c, s.r.real(0.1, 3)); }},
    {"equal classification", any, [](St& s) { if (s.m.comm()->size() > 1) return; Mesh c = s.m; for (int d = 0; d <= s.dim(); ++d) for (auto n : {"class_dim", "class_id"}) if (c.has_tag(d, n)) c.remove_tag(d, n); osh::classify_elements(&c); osh::finalize_classification(&c); }},
    {"hilbert", [](St& s) { return s.m.comm()->size() == 1; }, [](St& s) { osh::reorder_by_hilbert(&s.m); }},
    {"reorder by globals", [](St& s) { return s.m.parting() == OMEGA_H_ELEM_BASED; }, [](St& s) { osh::reorder_by_globals(&s.m); }},
    {"histogram", any, [](St& s) { auto h = osh::get_histogram(&s.m, s.dim(), int(s.r.range(1, 5)), -1, 1, field(s.m, s.dim(), 1, 1)); osh::print_histogram(h, "x"); }},
    {"goals", any, [](St& s) { auto f = field(s.m, s.dim(), 1, 1); osh::print_goal_stats(&s.m, "goal", s.dim(), f, {-0.5, 0.5}, osh::get_minmax(s.m.comm(), f)); }},
    {"scatterplot", any, [](St& s) {
      int n = s.dim(); string const sep = s.r.chance(0.5) ? "," : "\t ";
      auto dir = n == 1 ? vector<Real>{1} : n == 2 ? vector<Real>{0.6, -0.8} : vector<Real>{0.6, 0, 0.8};
      vector<Real> org; for (int i = 0; i < n; ++i) org.push_back(s.r.real(-2, 2));
      auto x = host(s.m.coords());
      for (int d = 0; d <= n; d += n) {
        auto gh = host(s.m.globals(d)); auto ev = d ? host(s.m.ask_elem_verts()) : vector<LO>();
        int k = d ? int(ev.size()) / std::max(1, int(gh.size())) : 1;
        for (int radial = 0; radial < 2; ++radial) {
          vector<Real> fh;  // the first component names the entity, the second says where it is
          for (size_t e = 0; e < gh.size(); ++e) {
            vector<Real> c(size_t(n), 0.);
            for (int j = 0; j < k; ++j) for (int i = 0; i < n; ++i) c[size_t(i)] += x[size_t((d ? ev[e * size_t(k) + size_t(j)] : LO(e)) * n + i)] / k;
            Real q = 0; for (int i = 0; i < n; ++i) q += radial ? (c[size_t(i)] - org[size_t(i)]) * (c[size_t(i)] - org[size_t(i)]) : (c[size_t(i)] - org[size_t(i)]) * dir[size_t(i)];
            fh.push_back(Real(gh[e]) + 0.5); fh.push_back(radial ? std::sqrt(q) : q);
          }
          Reals f = dev(fh); string p = s.dir + "/p.csv";
          if (n == 1) { auto o = osh::vector_1(org[0]), v = osh::vector_1(dir[0]); if (!radial) osh::write_linear_scatterplot<1>(p, &s.m, d, f, v, o, sep); else osh::write_radial_scatterplot<1>(p, &s.m, d, f, o, sep); }
          if (n == 2) { auto o = osh::vector_2(org[0], org[1]), v = osh::vector_2(dir[0], dir[1]); if (!radial) osh::write_linear_scatterplot<2>(p, &s.m, d, f, v, o, sep); else osh::write_radial_scatterplot<2>(p, &s.m, d, f, o, sep); }
          if (n == 3) { auto o = osh::vector_3(org[0], org[1], org[2]), v = osh::vector_3(dir[0], dir[1], dir[2]); if (!radial) osh::write_linear_scatterplot<3>(p, &s.m, d, f, v, o, sep); else osh::write_radial_scatterplot<3>(p, &s.m, d, f, o, sep); }
          s.m.comm()->barrier();
          auto ng = s.m.nglobal_ents(d);
          if (s.m.comm()->rank() == 0) {  // one row per entity of the whole mesh
            std::ifstream in(p); string l; vector<Real> vs; bool form = true, place = true;
            while (std::getline(in, l)) {
              auto c = l.find(sep), c2 = c == string::npos ? c : l.find(sep, c + sep.size());
              if (c2 == string::npos) { form = false; break; }
              Real a0 = std::stod(l.substr(0, c)), a1 = std::stod(l.substr(c + sep.size(), c2 - c - sep.size())), a2 = std::stod(l.substr(c2 + sep.size()));
              vs.push_back(a1); if (!(std::abs(a0 - a2) <= 1e-9)) place = false;
            }
            std::sort(vs.begin(), vs.end());
            bool ok = form && GO(vs.size()) == ng;
            for (size_t i = 0; ok && i < vs.size(); ++i) ok = vs[i] == Real(i) + 0.5;
            VP_CHECK(ok, "scatter-rows", "scatterplot of dimension %d has %d rows for %d entities or the values of others", d, int(vs.size()), int(ng));
            VP_CHECK(place, "scatter-place", "scatterplot of dimension %d puts an entity elsewhere", d);
            count("scatter_rows", long(vs.size()));
          }
          s.m.comm()->barrier();
        }
      }
    }},
    {"native file", [](St& s) { return s.m.parting() == OMEGA_H_ELEM_BASED; }, [](St& s) { osh::binary::write(s.dir + "/m.osh", &s.m); s.m.comm()->barrier(); Mesh q = osh::binary::read(s.dir + "/m.osh", s.m.comm()); VP_CHECK(q.nents(s.dim()) == s.m.nents(s.dim()), "read", "another element count"); s.m.comm()->barrier(); }},
    {"vtk", any, [](St& s) { int d = int(s.r.range(1, s.dim())); osh::vtk::write_parallel(s.dir + "/v", &s.m, d); s.m.comm()->barrier();
      if (d == s.dim()) { Mesh q(g_lib); osh::vtk::read_parallel(osh::vtk::get_pvtu_path(s.dir + "/v"), s.m.comm(), &q); }
      s.m.comm()->barrier(); }},
    {"vtu", [](St& s) { return s.m.comm()->size() == 1; }, [](St& s) { osh::vtk::write_vtu(s.dir + "/v.vtu", &s.m, s.r.chance(0.5)); std::ifstream f(s.dir + "/v.vtu"); Mesh q(g_lib); osh::vtk::read_vtu(f, s.m.comm(), &q); }},
    {"writer", any, [](St& s) { osh::vtk::Writer w(s.dir + "/w", &s.m); w.write(0.0); w.write(1.0); osh::vtk::FullWriter fw(s.dir + "/fw", &s.m); fw.write(); }},
    {"gmsh", [](St& s) { return s.m.comm()->size() == 1 && !s.hyper; }, [](St& s) { osh::gmsh::write(s.dir + "/g.msh", &s.m); Mesh q = osh::gmsh::read(s.dir + "/g.msh", s.m.comm()); VP_CHECK(q.nelems() == s.m.nelems(), "read", "another element count"); }},
    {"string", any, [](St& s) { out(s.m.string(1)); }},
    {"copy", any, [](St& s) { Mesh c = s.m; c.copy_meta(); Mesh d(g_lib); d = c; s.m = d; }},
    {"motion", [](St& s) { return s.m.parting() == OMEGA_H_ELEM_BASED || true; }, [](St& s) { s.m.set_coords(osh::multiply_each_by(s.m.coords(), 1.25)); }},
    {"repro sum", any, [](St& s) { auto f = field(s.m, 0, 3, 2); osh::repro_sum(s.m.comm(), osh::get_component(f, 3, 0)); Real q[3]; osh::repro_sum(s.m.comm(), f, 3, q); osh::get_min(s.m.comm(), f); osh::get_max(s.m.comm(), f); osh::get_sum(s.m.comm(), f); }},
    {"random", any, [](St& s) { osh::unit_uniform_random_reals_from_globals(s.m.globals(0), 3, 2); }},
    {"subset", any, [](St& s) { auto ex = osh::collect_marked(osh::mark_exposed_sides(&s.m)); auto f = field(s.m, s.dim() - 1, 1, 3); Reals sub = osh::unmap(ex, f, 1); s.m.sync_subset_array(s.dim() - 1, sub, ex, Real(-1.0), 1); s.m.owned_subset_array(s.dim() - 1, sub, ex, Real(-1.0), 1); }},
    {"refine tree", [](St& s) { return s.hyper && s.dim() > 1 && !s.m.has_any_parents() && s.m.parting() == OMEGA_H_ELEM_BASED; }, [](St& s) {
      auto mk = vector<I8>(size_t(s.m.nelems()));
      auto g = host(s.m.globals(s.dim()));
      for (size_t i = 0; i < mk.size(); ++i) mk[i] = I8(g[i] % 2 == 0);
      if (s.m.nglobal_ents(s.dim()) > 0) osh::amr::refine(&s.m, Read<I8>(dev(mk)), osh::TransferOpts()); 
      for (int d = 0; d <= s.dim(); ++d) { s.m.ask_levels(d); s.m.ask_leaves(d); s.m.ask_parents(d); } }},
    {"adapt", simp_elem, [](St& s) {
      for (auto n : {"metric", "target_metric"}) if (s.m.has_tag(0, n)) s.m.remove_tag(0, n);
      if (s.r.chance(0.5)) osh::add_implied_metric_tag(&s.m); else osh::add_implied_isos_tag(&s.m);
      auto opts = osh::AdaptOpts(&s.m);
      opts.verbosity = s.r.chance(0.8) ? osh::SILENT : osh::EXTRA_STATS;
      auto f = s.r.real(0.5, 2.5);
      s.m.set_tag(0, "metric", Reals(osh::multiply_each_by(s.m.get_array<Real>(0, "metric"), f)));
      if (opts.verbosity != osh::SILENT) osh::print_adapt_histograms(&s.m, opts);
      if (s.m.min_quality() < opts.min_quality_allowed) return;
      osh::adapt(&s.m, opts); }},
    {"metric source", [](St& s) { return !s.hyper; }, [](St& s) {
      osh::MetricInput in; in.verbose = s.r.chance(0.3);
      in.sources.push_back({OMEGA_H_IMPLIED, s.r.real(0.5, 2)});
      if (s.r.chance(0.3)) in.sources.push_back({OMEGA_H_CONSTANT, 0.5});
      in.should_limit_lengths = s.r.chance(0.5); in.min_length = 0.1; in.max_length = 3;
      in.should_limit_gradation = s.r.chance(0.5); in.max_gradation_rate = 1; in.gradation_convergence_tolerance = 1e-3;
      in.should_limit_element_count = s.r.chance(0.5) && !in.should_limit_lengths && !in.should_limit_gradation; in.max_element_count = 50; in.min_element_count = 1; in.element_count_over_relaxation = 1.1; in.nsmoothing_steps = int(s.r.below(3));
      if (s.m.parting() != OMEGA_H_GHOSTED && s.m.comm()->size() > 1) s.m.set_parting(OMEGA_H_GHOSTED, 1, false);
      osh::generate_metrics(&s.m, in); }},
  };
  return v;
}

// calls the interface rejects; each must throw and leave the mesh as it was
static vector<std::pair<char const*, std::function<void(St&)>>> const& bad() {
  static vector<std::pair<char const*, std::function<void(St&)>>> const v{
    {"a missing tag", [](St& s) { s.m.get_array<Real>(0, "no such tag"); }},
    {"a tag of another type", [](St& s) { s.m.get_array<I32>(0, "coordinates"); }},
    {"a tag of the wrong size", [](St& s) { s.m.add_tag<Real>(0, "short", 2, Reals(s.m.nverts() * 2 + 1, 0)); }},
    {"replacing a tag by the wrong size", [](St& s) { s.m.set_tag(0, "coordinates", Reals(s.m.nverts() * s.dim() + 1, 0)); }},
    {"an unknown dimension", [](St& s) { s.m.nents(4); }},
    {"a negative dimension", [](St& s) { s.m.nents(-1); }},
    {"relations downward of lower dimension", [](St& s) { s.m.ask_down(0, 1); }},
    {"relations upward of higher dimension", [](St& s) { s.m.ask_up(1, 0); }},
    {"the star of elements", [](St& s) { s.m.ask_star(s.dim()); }},
    {"a file that is not there", [](St& s) { osh::binary::read(s.dir + "/missing.osh", s.m.comm()); }},
    {"a vtk file that is not there", [](St& s) { Mesh q(g_lib); osh::vtk::read_parallel(s.dir + "/missing.pvtu", s.m.comm(), &q); }},
    {"an unknown kind of file", [](St& s) { osh::read_mesh_file(s.dir + "/x.unknown", s.m.comm()); }},
  };
  return v;
}

static void case_tiny(Rng& r, int64_t) {
  bool hyper = r.chance(0.3);
  Soup s;
  GenOpts go;
  go.dim = int(r.range(1, 3));
  go.max_cells = r.chance(0.75) ? 1 : 2;
  go.reorder = true;
  if (hyper) { s = gen_hyper(r, go.dim, go.max_cells); }
  else {
    s = gen_soup(r, go);
    if (r.chance(0.6)) {  // one element, or a few of them
      size_t keep = size_t(r.range(1, std::min(3, s.ne())));
      s.ev.resize(keep * size_t(s.dim + 1)); s.region.resize(keep);
      std::map<int, int> ren; vector<double> x;
      for (auto& v : s.ev) { if (!ren.count(v)) { int k = int(ren.size()); ren[v] = k; for (int i = 0; i < s.dim; ++i) x.push_back(s.x[size_t(v * s.dim + i)]); } v = ren[v]; }
      s.x = x;
      s.desc += fmt(" cut to %d elements", int(keep));
    }
  }
  auto world = g_lib->world();
  int style = int(r.below(4));
  Mesh m = hyper ? distribute_built(world, [&] { Mesh b(g_lib); if (world->size() == 1) b.set_comm(g_lib->self()); osh::build_from_elems_and_coords(&b, OMEGA_H_HYPERCUBE, s.dim, LOs(dev(conv<LO>(s.ev))), Reals(dev(s.x)));
      osh::classify_elements(&b); b.add_tag<LO>(s.dim, "class_id", 1, Read<LO>(b.nelems(), 1)); osh::finalize_classification(&b);
      return b; }, r, style)
      : distribute_built(world, [&] { Model mod = make_model(s); return build_serial(g_lib->self(), s, &mod); }, r, style);
  string dir = ctx().tmp + "/e";
  if (ctx().rank == 0) ::mkdir(dir.c_str(), 0755);
  world->barrier();
  St st{r, m, hyper, dir};
  string prog = s.desc + ":";
  bool plot = ctx().mode == "plot";
  int n = plot ? int(r.range(1, 3)) : int(r.range(4, 14));
  Hash h; h.str(s.desc);
  for (int k = 0; k < n; ++k) {
    if (!plot && world->size() == 1 && r.chance(0.15)) {
      auto& b = bad()[size_t(r.below(bad().size()))];
      bool threw = false;
      try { b.second(st); } catch (std::exception const&) { threw = true; }
      VP_CHECK(threw, "accepted", "%s was accepted (%s)", b.first, prog.c_str());
      count("rejected_calls");
      continue;
    }
    auto name = !plot ? "" : k + 1 == n ? "scatterplot" : r.chance(0.5) ? "ghosted" : "vertex based";
    auto& o = *(plot ? std::find_if(ops().begin(), ops().end(), [&](Op const& q) { return q.name == string(name); }) : ops().begin() + long(r.below(ops().size())));
    if (!o.ok(st)) continue;
    prog += string(" ") + o.name + ";";
    h.str(o.name);
    if (getenv("VP_TRACE") && ctx().rank == 0) fprintf(stderr, "%s\n", o.name);
    try { o.run(st); } catch (std::exception const& e) {
      throw std::runtime_error(prog + " " + e.what());
    }
    count(string("ran: ") + o.name);
  }
  sample(prog);
  nontrivial(h.get());
}

int main(int argc, char** argv) {
  parse_args(argc, argv);
  LibArgs la(argc, argv);
  Library lib(&la.argc, &la.argv);
  g_lib = &lib;
  ctx().rank = lib.world()->rank(); ctx().size = lib.world()->size();
  return run_cases(case_tiny);
}
