// D04: expressions, XML, YAML, regular expressions, generated parsers and
// command lines against independent readers of the same languages.
#include "vp.hpp"
#include <Omega_h_array_ops.hpp>
// the two graph headers use one include guard in some versions
#undef OMEGA_H_GRAPH_HPP
#include <Omega_h_parser_graph.hpp>
#ifndef OMEGA_H_GRAPH_HPP
#define OMEGA_H_GRAPH_HPP
#endif
#include <Omega_h_build_parser.hpp>
#include <Omega_h_cmdline.hpp>
#include <Omega_h_expr.hpp>
#include <Omega_h_input.hpp>
#include <Omega_h_language.hpp>
#include <Omega_h_math_lang.hpp>
#include <Omega_h_reader.hpp>
#include <Omega_h_regex.hpp>
#include <Omega_h_xml.hpp>
#include <Omega_h_xml_lite.hpp>
#include <Omega_h_yaml.hpp>
#include <Omega_h_vector.hpp>
#include <fstream>

namespace osh = Omega_h;
using namespace vp;
static Library* g_lib = nullptr;

struct Quiet {  // the library prints to the standard streams while it fails
  std::ostringstream s;
  std::streambuf *o, *e;
  Quiet() : o(std::cout.rdbuf(s.rdbuf())), e(std::cerr.rdbuf(s.rdbuf())) {}
  ~Quiet() { std::cout.rdbuf(o); std::cerr.rdbuf(e); }
};

// ================================================================ expressions
struct Reject : std::runtime_error { using std::runtime_error::runtime_error; };
struct Grey : std::runtime_error { using std::runtime_error::runtime_error; };

struct Node;
using NodeP = std::shared_ptr<Node>;
struct Node {
  string op;  // num var call neg + - * / ^ > < == && || ?: paren assign ;
  string name;
  double num = 0;
  vector<NodeP> c;
};
struct Tok { char k; string s; };  // k: n name, c const, o operator, e end

static bool lex_math(string const& in, vector<Tok>& out) {
  size_t i = 0;
  bool first = true;
  while (i < in.size()) {
    char c = in[i];
    if (c == ' ' || c == '\t' || c == '\n' || c == '\r') {
      if (first) return false;  // the grammar has no space before the first token
      while (i < in.size() && strchr(" \t\n\r", in[i])) ++i;
      continue;
    }
    first = false;
    if (isalpha(c) || c == '_') {
      size_t j = i;
      while (j < in.size() && (isalnum(in[j]) || in[j] == '_')) ++j;
      out.push_back({'n', in.substr(i, j - i)});
      i = j;
    } else if (isdigit(c)) {
      size_t j = i + 1;
      if (c != '0') while (j < in.size() && isdigit(in[j])) ++j;
      if (j < in.size() && in[j] == '.') { ++j; while (j < in.size() && isdigit(in[j])) ++j; }
      if (j < in.size() && (in[j] == 'e' || in[j] == 'E')) {
        size_t k = j + 1;
        if (k < in.size() && (in[k] == '+' || in[k] == '-')) ++k;
        if (k < in.size() && isdigit(in[k])) { while (k < in.size() && isdigit(in[k])) ++k; j = k; }
      }
      out.push_back({'c', in.substr(i, j - i)});
      i = j;
    } else {
      string two = in.substr(i, 2);
      if (two == ">=" || two == "<=" || two == "==" || two == "&&" || two == "||") { out.push_back({'o', two}); i += 2; }
      else if (strchr("+-*/^(),?:><;=", c)) { out.push_back({'o', string(1, c)}); ++i; }
      else return false;
    }
  }
  out.push_back({'e', ""});
  return true;
}

struct MathParser {  // packrat parser of the published expression grammar
  vector<Tok> t;
  struct R { bool ok; size_t end; NodeP n; };
  std::map<std::pair<int, size_t>, R> memo;
  bool is(size_t p, char const* s) { return t[p].k == 'o' && t[p].s == s; }
  static NodeP mk(string op, vector<NodeP> c) { auto n = std::make_shared<Node>(); n->op = op; n->c = c; return n; }
  R fail() { return {false, 0, nullptr}; }
  R call(int rule, size_t p) {
    auto k = std::make_pair(rule, p);
    auto it = memo.find(k);
    if (it != memo.end()) return it->second;
    R r = run(rule, p);
    memo[k] = r;
    return r;
  }
  enum { TERNARY, OR, AND, COMP, ADD, MUL, NEG, POW, SCALAR };
  R chain(size_t p, int first, int rest, vector<string> ops) {
    R a = call(first, p);
    if (!a.ok) return a;
    for (;;) {
      bool got = false;
      for (auto& o : ops)
        if (is(a.end, o.c_str())) {
          R b = call(rest, a.end + 1);
          if (!b.ok) return a;
          a = {true, b.end, mk(o, {a.n, b.n})};
          got = true;
          break;
        }
      if (!got) return a;
    }
  }
  R run(int rule, size_t p) {
    switch (rule) {
      case TERNARY: {
        R c = call(OR, p);
        if (c.ok && is(c.end, "?")) {
          R a = call(ADD, c.end + 1);
          if (a.ok && is(a.end, ":")) {
            R b = call(ADD, a.end + 1);
            if (b.ok) return {true, b.end, mk("?:", {c.n, a.n, b.n})};
          }
        }
        return call(ADD, p);
      }
      case OR: return chain(p, AND, AND, {"||"});
      case AND: return chain(p, COMP, COMP, {"&&"});
      case COMP: {
        R a = call(ADD, p);
        if (a.ok)
          for (auto o : {">", "<", ">=", "<=", "=="})
            if (is(a.end, o)) {
              R b = call(ADD, a.end + 1);
              if (b.ok) return {true, b.end, mk(o, {a.n, b.n})};
            }
        if (is(p, "(")) {
          R b = call(OR, p + 1);
          if (b.ok && is(b.end, ")")) return {true, b.end + 1, b.n};
        }
        return fail();
      }
      case ADD: return chain(p, MUL, MUL, {"+", "-"});
      case MUL: return chain(p, NEG, POW, {"*", "/"});
      case NEG: {
        if (is(p, "-")) {
          R b = call(NEG, p + 1);
          if (!b.ok) return b;
          return {true, b.end, mk("neg", {b.n})};
        }
        return call(POW, p);
      }
      case POW: {
        R a = call(SCALAR, p);
        if (!a.ok) return a;
        if (is(a.end, "^")) {
          R b = call(POW, a.end + 1);
          if (b.ok) return {true, b.end, mk("^", {a.n, b.n})};
        }
        return a;
      }
      case SCALAR: {
        if (t[p].k == 'c') {
          auto n = mk("num", {});
          n->num = strtod(t[p].s.c_str(), nullptr);
          return {true, p + 1, n};
        }
        if (t[p].k == 'n') {
          auto n = mk("var", {});
          n->name = t[p].s;
          if (is(p + 1, "(")) {
            n->op = "call";
            size_t q = p + 2;
            if (is(q, ")")) return {true, q + 1, n};
            for (;;) {
              R a = call(TERNARY, q);
              if (!a.ok) return fail();
              n->c.push_back(a.n);
              q = a.end;
              if (is(q, ")")) return {true, q + 1, n};
              if (!is(q, ",")) return fail();
              ++q;
            }
          }
          return {true, p + 1, n};
        }
        if (is(p, "(")) {
          R a = call(TERNARY, p + 1);
          if (a.ok && is(a.end, ")")) return {true, a.end + 1, a.n};
        }
        return fail();
      }
    }
    return fail();
  }
  // statements and the final expression; throws Reject
  vector<NodeP> program() {
    vector<NodeP> out;
    size_t p = 0;
    while (t[p].k == 'n' && is(p + 1, "=")) {
      R a = call(TERNARY, p + 2);
      if (!a.ok || !is(a.end, ";")) throw Reject("syntax");
      auto n = mk("assign", {a.n});
      n->name = t[p].s;
      out.push_back(n);
      p = a.end + 1;
    }
    R a = call(TERNARY, p);
    if (!a.ok || t[a.end].k != 'e') throw Reject("syntax");
    out.push_back(a.n);
    return out;
  }
};

struct Val {
  char k = 'S';  // S scalar, V vector, M matrix, B bool, Y symmetric
  bool arr = false;
  vector<vector<double>> p;  // one entry, or one for every point
  bool exact = true;
  double mag = 0;
};
struct Evaluator {
  int dim; size_t n;
  std::map<string, Val> vars;
  std::set<string> funcs{"exp", "sqrt", "sin", "cos", "erf", "vector", "symm", "matrix", "tensor", "norm"};
  int ncomp(char k) { return k == 'S' || k == 'B' ? 1 : k == 'V' ? dim : k == 'M' ? dim * dim : dim * (dim + 1) / 2; }
  Val wide(Val a) {
    if (a.arr) return a;
    Val r = a; r.arr = true; r.p.assign(n, a.p[0]);
    return r;
  }
  [[noreturn]] void mismatch(bool arr, bool sure, char const* what) {
    if ((!arr || (sure && n > 0)) && dim > 1) throw Reject(what);
    throw Grey(what);
  }
  template <class F> Val each(Val a, Val b, char k, F f) {
    bool arr = a.arr || b.arr;
    if (arr) { a = wide(a); b = wide(b); }
    Val r; r.k = k; r.arr = arr; r.exact = a.exact && b.exact; r.mag = std::max(a.mag, b.mag);
    for (size_t i = 0; i < a.p.size(); ++i) r.p.push_back(f(a.p[i], b.p[i]));
    return fin(r);
  }
  Val fin(Val r) {
    for (auto& v : r.p) for (auto x : v) { if (!std::isfinite(x)) throw Grey("not finite"); r.mag = std::max(r.mag, std::abs(x)); }
    if (r.mag > 1e7) throw Grey("too large");
    return r;
  }
  using D = vector<double>;
  Val eval(NodeP const& e) {
    auto& o = e->op;
    if (o == "num") { Val r; r.p = {{e->num}}; return fin(r); }
    if (o == "var") {
      auto it = vars.find(e->name);
      if (it == vars.end()) throw Reject("unknown variable");
      return it->second;
    }
    if (o == "neg") { Val a = eval(e->c[0]); for (auto& v : a.p) for (auto& x : v) x = -x; return a; }
    if (o == ">=" || o == "<=") { eval(e->c[0]); eval(e->c[1]); throw Reject("not supported"); }
    if (o == "call") {
      vector<Val> a;
      for (auto& c : e->c) a.push_back(eval(c));
      auto it = vars.find(e->name);
      if (it != vars.end()) return access(it->second, a);
      if (!funcs.count(e->name)) throw Reject("unknown function");
      return func(e->name, a);
    }
    if (o == "?:") {
      Val c = eval(e->c[0]), a = eval(e->c[1]), b = eval(e->c[2]);
      bool arr = a.arr || b.arr;
      if (a.k != b.k && n == 0 && (arr || c.arr)) throw Grey("no points");
      if (a.k != b.k) mismatch(arr || c.arr, c.arr, "ternary");
      if (c.arr) {
        a = wide(a); b = wide(b);
        Val r = a;
        r.exact = a.exact && b.exact; r.mag = std::max(a.mag, b.mag);
        for (size_t i = 0; i < n; ++i) r.p[i] = c.p[i][0] != 0 ? a.p[i] : b.p[i];
        return r;
      }
      if (arr) { a = wide(a); b = wide(b); }
      return c.p[0][0] != 0 ? a : b;
    }
    Val a = eval(e->c[0]), b = eval(e->c[1]);
    bool arr = a.arr || b.arr;
    if (o == "||") return each(a, b, 'B', [](D x, D y) { return D{double(x[0] != 0 || y[0] != 0)}; });
    if (o == "&&") return each(a, b, 'B', [](D x, D y) { return D{double(x[0] != 0 && y[0] != 0)}; });
    if (o == ">" || o == "<" || o == "==") {
      if (a.k != 'S' || b.k != 'S') mismatch(arr, false, "comparison");
      bool ex = a.exact && b.exact;
      double tol = 1e-8 * (1 + std::max(a.mag, b.mag));
      char w = o[0];
      auto r = each(a, b, 'B', [=](D x, D y) {
        if (!ex && std::abs(x[0] - y[0]) <= tol) throw Grey("too close to compare");
        return D{double(w == '>' ? x[0] > y[0] : w == '<' ? x[0] < y[0] : x[0] == y[0])};
      });
      r.exact = true; r.mag = 1;
      return r;
    }
    if (o == "+" || o == "-") {
      if (a.k != b.k) mismatch(arr, true, "sum");
      double s = o == "+" ? 1 : -1;
      return each(a, b, a.k, [=](D x, D y) { for (size_t i = 0; i < x.size(); ++i) x[i] += s * y[i]; return x; });
    }
    if (o == "/") {
      if (b.k != 'S') { if (!arr) throw Reject("division"); throw Grey("division"); }
      return each(a, b, a.k, [](D x, D y) { if (std::abs(y[0]) < 1e-9) throw Grey("division by zero"); for (auto& v : x) v /= y[0]; return x; });
    }
    if (o == "^") {
      if (a.k != 'S' || b.k != 'S') { if (!arr) throw Reject("power"); throw Grey("power"); }
      return each(a, b, 'S', [](D x, D y) { return D{std::pow(x[0], y[0])}; });
    }
    if (o == "*") {
      int d = dim;
      if (a.k == 'S') std::swap(a, b);
      if (b.k == 'S') return each(a, b, a.k, [](D x, D y) { for (auto& v : x) v *= y[0]; return x; });
      if (a.k == 'V' && b.k == 'V') {
        Val r = each(a, b, 'S', [=](D x, D y) { double s = 0; for (int i = 0; i < d; ++i) s += x[size_t(i)] * y[size_t(i)]; return D{s}; });
        r.exact = false; r.mag = std::max(r.mag, a.mag * b.mag * d);
        return fin(r);
      }
      if (a.k == 'M' && b.k == 'V') {
        Val r = each(a, b, 'V', [=](D x, D y) {
          D z(size_t(d), 0.);
          for (int i = 0; i < d; ++i) for (int j = 0; j < d; ++j) z[size_t(i)] += x[size_t(i * d + j)] * y[size_t(j)];
          return z; });
        r.exact = false; r.mag = std::max(r.mag, a.mag * b.mag * d);
        return fin(r);
      }
      if (a.k == 'M' && b.k == 'M') {
        Val r = each(a, b, 'M', [=](D x, D y) {
          D z(size_t(d * d), 0.);
          for (int i = 0; i < d; ++i) for (int j = 0; j < d; ++j) for (int k = 0; k < d; ++k) z[size_t(i * d + j)] += x[size_t(i * d + k)] * y[size_t(k * d + j)];
          return z; });
        r.exact = false; r.mag = std::max(r.mag, a.mag * b.mag * d);
        return fin(r);
      }
      mismatch(arr, true, "product");
    }
    throw Grey("unknown operator " + o);
  }
  Val access(Val const& v, vector<Val>& a) {
    if (v.k == 'S' || v.k == 'Y') mismatch(v.arr, true, "access to a scalar");
    if (a.size() != (v.k == 'V' ? 1u : 2u)) {
      if (v.arr && dim == 1 && (a.size() == 1 || a.size() == 2)) throw Grey("vectors and tensors are alike");
      throw Reject("number of indices");
    }
    int ix[2] = {0, 0};
    for (size_t i = 0; i < a.size(); ++i) {
      if (a[i].arr || a[i].k != 'S') throw Reject("index is no constant");
      double x = a[i].p[0][0];
      if (x != std::floor(x)) throw Grey("fractional index");
      if (x < 0 || x >= dim) throw Reject("index out of range");
      ix[i] = int(x);
    }
    Val r; r.k = 'S'; r.arr = v.arr; r.exact = v.exact; r.mag = v.mag;
    for (auto& q : v.p) r.p.push_back({v.k == 'V' ? q[size_t(ix[0])] : q[size_t(ix[0] * dim + ix[1])]});
    return r;
  }
  Val func(string const& f, vector<Val>& a) {
    bool arr = false;
    for (auto& x : a) arr = arr || x.arr;
    if (f == "vector" || f == "matrix" || f == "tensor") {
      size_t need = f == "vector" ? size_t(dim) : size_t(dim * dim);
      if (a.empty() || a.size() > need) throw Reject("number of arguments");
      if (need != a.size() && f != "vector") {
        if (a.size() == 1 && a[0].k == 'S' && !a[0].arr && a[0].p[0][0] == 0) {
          Val r; r.k = 'M'; r.arr = true; r.p.assign(n, D(need, 0.)); return r;
        }
        throw Reject("number of arguments");
      }
      for (auto& x : a) if (x.k != 'S') { if (arr || dim == 1) throw Grey("components"); throw Reject("components"); }
      if (f != "vector" && a.size() == 1 && !arr && a[0].p[0][0] == 0) throw Grey("matrix(0) in 1D");
      while (a.size() < need) a.push_back(a.back());
      Val r; r.k = f == "vector" ? 'V' : 'M'; r.arr = arr;
      if (arr) for (auto& x : a) x = wide(x);
      r.p.assign(arr ? n : 1, D());
      for (auto& x : a) { r.exact = r.exact && x.exact; r.mag = std::max(r.mag, x.mag); for (size_t i = 0; i < r.p.size(); ++i) r.p[i].push_back(x.p[i][0]); }
      return r;
    }
    if (a.size() != 1) throw Reject("number of arguments");
    Val x = a[0];
    if (f == "norm") {
      if (x.k != 'V') mismatch(x.arr, true, "norm");
      for (auto& q : x.p) { double s = 0; for (auto c : q) s += c * c; q = {std::sqrt(s)}; }
      x.k = 'S'; x.exact = false;
      return fin(x);
    }
    if (f == "symm") {
      if (x.k != 'M') mismatch(true, true, "symm");
      x = wide(x);
      for (auto& q : x.p) {
        D m = q;
        auto at = [&](int i, int j) { return m[size_t(i * dim + j)]; };
        for (int i = 0; i < dim; ++i) for (int j = 0; j < dim; ++j) if (at(i, j) != at(j, i)) throw Grey("not symmetric");
        if (dim == 1) q = {at(0, 0)};
        else if (dim == 2) q = {at(0, 0), at(1, 1), at(0, 1)};
        else q = {at(0, 0), at(1, 1), at(2, 2), at(0, 1), at(1, 2), at(0, 2)};
      }
      x.k = 'Y';
      return x;
    }
    if (x.k != 'S') mismatch(x.arr, true, "function of a non-scalar");
    for (auto& q : x.p) {
      double v = q[0];
      q[0] = f == "exp" ? std::exp(v) : f == "sqrt" ? std::sqrt(v) : f == "sin" ? std::sin(v) : f == "cos" ? std::cos(v) : std::erf(v);
    }
    return fin(x);
  }
  // the value of the program, or Reject or Grey
  Val run(vector<NodeP> const& prog) {
    for (size_t i = 0; i + 1 < prog.size(); ++i) vars[prog[i]->name] = eval(prog[i]->c[0]);
    return eval(prog.back());
  }
};

template <int d> static osh::any to_any_d(Val const& v) {
  if (v.k == 'V') { auto x = osh::zero_vector<d>(); for (int i = 0; i < d; ++i) x[i] = v.p[0][size_t(i)]; return x; }
  auto m = osh::zero_matrix<d, d>();
  for (int i = 0; i < d; ++i) for (int j = 0; j < d; ++j) m(i, j) = v.p[0][size_t(i * d + j)];
  return m;
}
static osh::any to_any(Val const& v, int dim) {
  if (v.arr) { vector<double> f; for (auto& q : v.p) f.insert(f.end(), q.begin(), q.end()); return Reals(dev(f)); }
  if (v.k == 'S') return v.p[0][0];
  if (dim == 1) return to_any_d<1>(v);
  if (dim == 2) return to_any_d<2>(v);
  return to_any_d<3>(v);
}
template <int d> static bool from_any_d(osh::any& x, char& k, vector<double>& f) {
  if (x.type() == typeid(osh::Vector<d>)) { auto v = osh::any_cast<osh::Vector<d>>(x); k = 'V'; for (int i = 0; i < d; ++i) f.push_back(v[i]); return true; }
  if (x.type() == typeid(osh::Matrix<d, d>)) { auto v = osh::any_cast<osh::Matrix<d, d>>(x); k = 'M'; for (int i = 0; i < d; ++i) for (int j = 0; j < d; ++j) f.push_back(v(i, j)); return true; }
  return false;
}
static string compare(osh::any& got, Val const& want, int dim) {
  vector<double> f; char k = '?'; bool arr = false;
  if (got.type() == typeid(double)) { k = 'S'; f = {osh::any_cast<double>(got)}; }
  else if (got.type() == typeid(Reals)) { arr = true; f = host(osh::any_cast<Reals>(got)); }
  else if (dim == 1) from_any_d<1>(got, k, f);
  else if (dim == 2) from_any_d<2>(got, k, f);
  else from_any_d<3>(got, k, f);
  if (arr != want.arr) return arr ? "gives an array instead of a constant" : fmt("gives a %s (%c) instead of an array", got.type().name(), k);
  if (!arr && k != want.k) return fmt("gives kind %c (%s) instead of %c", k, got.type().name(), want.k);
  vector<double> w;
  for (auto& q : want.p) w.insert(w.end(), q.begin(), q.end());
  if (f.size() != w.size()) return fmt("gives %d values instead of %d", int(f.size()), int(w.size()));
  double tol = (want.exact ? 1e-13 : 1e-9) * (1 + want.mag);
  for (size_t i = 0; i < w.size(); ++i)
    if (!(std::abs(f[i] - w[i]) <= tol)) return fmt("gives %.17g at %d instead of %.17g", f[i], int(i), w[i]);
  return "";
}

struct ExprGen {
  Rng& r; int dim; bool arrays;
  std::map<string, Val>& vars;
  string sp() { return r.chance(0.15) ? (r.chance(0.2) ? " \n\t" : " ") : ""; }
  string num() {
    switch (r.below(6)) {
      case 0: return fmt("%d", int(r.below(10)));
      case 1: return fmt("%d.%d", int(r.below(20)), int(r.below(100)));
      case 2: return fmt("%d.", int(r.below(10)));
      case 3: return fmt("%de%d", int(r.range(1, 9)), int(r.range(-3, 2)));
      case 4: return fmt("%d.%dE+%d", int(r.range(1, 9)), int(r.below(10)), int(r.below(3)));
      default: return fmt("0.%03d", int(r.below(1000)));
    }
  }
  string leaf(char k) {
    vector<string> c;
    for (auto& kv : vars) {
      if (kv.second.k == k) { c.push_back(kv.first); c.push_back(kv.first); }
      if (k == 'S' && kv.second.k == 'V') c.push_back(kv.first + sp() + "(" + sp() + fmt("%d", int(r.below(dim))) + sp() + ")");
      if (k == 'S' && kv.second.k == 'M') c.push_back(kv.first + "(" + fmt("%d", int(r.below(dim))) + sp() + "," + sp() + fmt("%d", int(r.below(dim))) + ")");
    }
    if (!c.empty() && r.chance(0.6)) return r.pick(c) + sp();
    if (k == 'S') return num() + sp();
    if (k == 'V') { string s = "vector(" + sp() + num(); int m = int(r.range(1, dim)); for (int i = 1; i < m; ++i) s += sp() + "," + sp() + num(); return s + ")" + sp(); }
    if (r.chance(0.1)) return "I" + sp();
    string s = r.chance(0.5) ? "matrix(" : "tensor(";
    for (int i = 0; i < dim * dim; ++i) s += (i ? "," + sp() : "") + num();
    return s + ")" + sp();
  }
  // prec: 0 ternary, 1 sum, 2 product, 3 negation, 4 power, 5 scalar
  string gen(char k, int depth, int prec) {
    if (depth <= 0) return leaf(k);
    struct O { int p; string s; };
    auto paren = [&](string s, int p) { return p < prec || r.chance(0.1) ? "(" + sp() + s + ")" + sp() : s; };
    switch (r.below(k == 'S' ? 12 : 8)) {
      case 0: case 1: { string o = r.chance(0.5) ? "+" : "-"; string a = gen(k, depth - 1, 1); return paren(a + o + sp() + gen(k, depth - 1, 2), 1); }
      case 2: {
        string a, b;
        if (k == 'S') { if (r.chance(0.7)) { a = gen('S', depth - 1, 2); b = gen('S', depth - 1, 4); } else { a = gen('V', depth - 1, 2); b = gen('V', depth - 1, 4); } }
        else if (k == 'V') { int w = int(r.below(3)); a = gen(w == 0 ? 'V' : w == 1 ? 'S' : 'M', depth - 1, 2); b = gen(w == 0 ? 'S' : 'V', depth - 1, 4); }
        else { int w = int(r.below(3)); a = gen(w == 1 ? 'S' : 'M', depth - 1, 2); b = gen(w == 0 ? 'S' : 'M', depth - 1, 4); }
        return paren(a + "*" + sp() + b, 2);
      }
      case 3: { string a = gen(k, depth - 1, 2); return paren(a + "/" + sp() + gen('S', depth - 1, 4), 2); }
      case 4: return paren("-" + sp() + gen(k, depth - 1, 3), 3);
      case 5: { string c = cond(depth - 1); string a = gen(k, depth - 1, 1); return paren(c + "?" + sp() + a + ":" + sp() + gen(k, depth - 1, 1), 0); }
      case 6: return "(" + sp() + gen(k, depth - 1, 0) + ")" + sp();
      case 7: {
        if (k == 'S') return "norm(" + gen('V', depth - 1, 0) + ")";
        if (k == 'V') { string s = "vector(" + sp(); int m = int(r.range(1, dim)); for (int i = 0; i < m; ++i) s += (i ? "," + sp() : "") + gen('S', depth - 1, 0); return s + ")" + sp(); }
        string s = "tensor("; for (int i = 0; i < dim * dim; ++i) s += (i ? "," + sp() : "") + gen('S', depth - 2, 0); return s + ")" + sp();
      }
      case 8: { string a = gen('S', depth - 1, 5); return paren(a + "^" + sp() + (r.chance(0.7) ? fmt("%d", int(r.below(4))) : gen('S', 0, 4)), 4); }
      case 9: case 10: { char const* fs[] = {"exp", "sqrt", "sin", "cos", "erf"}; return string(fs[r.below(5)]) + sp() + "(" + sp() + gen('S', depth - 1, 0) + ")" + sp(); }
      default: return leaf(k);
    }
  }
  string cond(int depth) {
    string o = r.chance(0.4) ? ">" : r.chance(0.6) ? "<" : "==";
    string s = gen('S', depth - 1, 1);
    s += o + sp() + gen('S', depth - 1, 1);
    if (depth > 0 && r.chance(0.3)) {
      string a = r.chance(0.5) ? s : "(" + sp() + cond(depth - 1) + ")" + sp();
      s = a + (r.chance(0.5) ? "&&" : "||") + sp() + (r.chance(0.5) ? cond(depth - 1) : "(" + cond(depth - 1) + ")");
    }
    return s;
  }
};

static Val random_val(Rng& r, char k, int dim, size_t n, bool arr) {
  Val v; v.k = k; v.arr = arr;
  int nc = k == 'S' ? 1 : k == 'V' ? dim : dim * dim;
  bool ints = r.chance(0.4);
  for (size_t i = 0; i < (arr ? n : 1); ++i) {
    vector<double> q;
    for (int j = 0; j < nc; ++j) q.push_back(ints ? double(r.range(-4, 4)) : r.real(-3, 3));
    v.p.push_back(q);
  }
  for (auto& q : v.p) for (auto x : q) v.mag = std::max(v.mag, std::abs(x));
  return v;
}
static string mutate(Rng& r, string s, char const* pool) {
  int m = int(r.range(1, 2));
  string P = pool;
  for (int i = 0; i < m; ++i) {
    size_t p = size_t(r.below(int64_t(s.size()) + 1));
    switch (r.below(5)) {
      case 0: s.insert(p, 1, P[size_t(r.below(int64_t(P.size())))]); break;
      case 1: if (p < s.size()) s.erase(p, 1); break;
      case 2: if (p < s.size()) s[p] = P[size_t(r.below(int64_t(P.size())))]; break;
      case 3: if (!s.empty()) { size_t a = size_t(r.below(int64_t(s.size()))), l = size_t(r.range(1, 6)); s.insert(p, s.substr(a, l)); } break;
      default: if (p < s.size()) s.erase(p, size_t(r.range(1, 6))); break;
    }
  }
  return s;
}

static void case_expr(Rng& r, int64_t) {
  int dim = int(r.range(1, 3));
  size_t n = r.chance(0.1) ? size_t(r.below(2)) : size_t(r.range(2, 6));
  bool arrays = r.chance(0.75);
  std::map<string, Val> vars;
  char const* names[] = {"x", "y", "rho", "e1", "A", "B", "v", "_w", "t", "E"};
  int nv = int(r.range(2, 8));
  for (int i = 0; i < nv; ++i) {
    char k = r.chance(0.45) ? 'S' : r.chance(0.6) ? 'V' : 'M';
    vars[names[r.below(10)]] = random_val(r, k, dim, n, arrays && r.chance(0.6));
  }
  auto user = vars;
  { Val d; d.p = {{double(dim)}}; d.mag = dim; vars["d"] = d; }
  { Val d; d.p = {{3.14159265358979323846}}; d.mag = 4; vars["pi"] = d; }
  { Val d; d.k = 'M'; d.p = {vector<double>(size_t(dim * dim), 0.)}; for (int i = 0; i < dim; ++i) d.p[0][size_t(i * dim + i)] = 1; d.mag = 1; vars["I"] = d; }
  ExprGen g{r, dim, arrays, vars};
  auto reader = std::make_unique<osh::ExprReader>(LO(n), dim);
  osh::ExprOpsReader ops;
  for (auto& kv : user) reader->register_variable(kv.first, to_any(kv.second, dim));
  int nexpr = int(r.range(1, 3));
  for (int q = 0; q < nexpr; ++q) {
    string text;
    auto decl = vars;
    int ns = r.chance(0.35) ? int(r.range(1, 2)) : 0;
    for (int i = 0; i < ns; ++i) {
      char k = r.chance(0.5) ? 'S' : r.chance(0.6) ? 'V' : 'M';
      string nm = r.chance(0.3) ? names[r.below(10)] : fmt("z%d", int(r.below(3)));
      text += nm + g.sp() + "=" + g.sp() + g.gen(k, int(r.below(3)), 0) + ";" + g.sp();
      vars[nm].k = k;
    }
    char k = r.chance(0.5) ? 'S' : r.chance(0.6) ? 'V' : 'M';
    string body = g.gen(k, int(r.range(1, 4)), 0);
    if (k == 'M' && r.chance(0.5)) body = "symm(" + g.gen('S', 2, 2) + "*I)";
    text += body;
    vars = decl;
    if (r.chance(0.25)) text = mutate(r, text, "01.eE+-*/^()<>=&|?:;,xyvABI zd\t_$@!");
    // what it must mean
    Evaluator ev{dim, n, vars};
    Val want;
    int verdict = 0;  // 1 value, 2 reject, 0 unknown
    string why;
    try {
      MathParser mp;
      if (!lex_math(text, mp.t) || mp.t.size() == 1) throw Reject("no token");
      want = ev.run(mp.program());
      verdict = want.k == 'B' ? 0 : 1;
    } catch (Reject& e) { verdict = 2; why = e.what(); }
    catch (Grey& e) { why = e.what(); }
    for (int mode = 0; mode < 3; ++mode) {
      string err; osh::any got;
      osh::ExprEnv env(LO(n), dim);
      {
        Quiet quiet;
        try {
          if (mode == 0) got = reader->read_string(text, "expr");
          else {
            auto op = ops.read_ops(text);
            if (mode == 2) {  // first somewhere else: evaluation must not depend on it
              osh::ExprEnv other(LO(n) + 1, dim);
              try { op->eval(other); } catch (std::exception const&) {}
            }
            for (auto& kv : vars) if (kv.first != "d" && kv.first != "pi" && kv.first != "I") env.register_variable(kv.first, to_any(kv.second, dim));
            for (auto nm : {"d", "pi", "I"}) env.variables[nm] = to_any(vars[nm], dim);
            got = op->eval(env);
          }
        } catch (std::exception const& e) { err = e.what(); if (err.empty()) err = "exception"; }
      }
      char const* by = mode ? "ExprOps" : "ExprReader";
      if (verdict == 1) {
        VP_CHECK(err.empty(), "expr-rejected", "%s, %dD, %d points: '%s' is rejected: %s", by, dim, int(n), text.c_str(), err.substr(0, 600).c_str());
        if (err.empty()) { string m = compare(got, want, dim); VP_CHECK(m.empty(), "expr-value", "%s, %dD, %d points: '%s' %s", by, dim, int(n), text.c_str(), m.c_str()); }
        count("expressions evaluated");
      } else if (verdict == 2) {
        VP_CHECK(!err.empty(), "expr-accepted", "%s, %dD, %d points: '%s' is accepted (%s) though it is malformed: %s", by, dim, int(n), text.c_str(), got.type().name(), why.c_str());
        count("malformed expressions");
      } else count("expressions without a verdict");
      if (mode == 0) {
        // an assignment made before the failure persists in the reader: start again
        if (verdict != 1) {
          reader = std::make_unique<osh::ExprReader>(LO(n), dim);
          for (auto& kv : vars) if (kv.first != "d" && kv.first != "pi" && kv.first != "I") reader->register_variable(kv.first, to_any(kv.second, dim));
          for (auto nm : {"d", "pi", "I"}) reader->register_variable(nm, to_any(vars[nm], dim));
        }
      }
    }
    if (verdict == 1) vars = ev.vars;
    else if (ns) break;
    if (verdict) { Hash h; h.str(text); nontrivial(h.get()); sample(text); }
    if (verdict == 1) {
      std::set<string> used, called;
      vector<Tok> tk; lex_math(text, tk);
      for (size_t i = 0; i + 1 < tk.size(); ++i)
        if (tk[i].k == 'n' && tk[i + 1].s != "=") (tk[i + 1].s == "(" ? called : used).insert(tk[i].s);
      VP_CHECK(osh::math_lang::get_variables_used(text) == used, "variables-used", "'%s'", text.c_str());
      used.insert(called.begin(), called.end());
      VP_CHECK(osh::math_lang::get_symbols_used(text) == used, "symbols-used", "'%s'", text.c_str());
    }
  }
}

// ================================================================ XML
struct Xml {  // recogniser of the published XML subset
  string const& s; size_t p = 0;
  explicit Xml(string const& x) : s(x) {}
  bool at(char c) { return p < s.size() && s[p] == c; }
  bool lit(char const* q) { size_t l = strlen(q); if (s.compare(p, l, q) == 0) { p += l; return true; } return false; }
  static bool sp(char c) { return c == ' ' || c == '\t' || c == '\r' || c == '\n'; }
  static bool common(char c) { return c && (sp(c) || isalnum(static_cast<unsigned char>(c)) || strchr("!#./:;>?=[_$%()*+,@\\^`{}|~", c)); }
  bool spaces() { size_t q = p; while (p < s.size() && sp(s[p])) ++p; return p > q; }
  bool name() {
    if (p >= s.size() || !(isalpha(s[p]) || s[p] == '_' || s[p] == ':')) return false;
    while (p < s.size() && (isalnum(s[p]) || (s[p] && strchr(".-_:", s[p])))) ++p;
    return true;
  }
  bool reference() {
    if (!lit("&")) return false;
    if (lit("#")) { size_t q = p; while (p < s.size() && isdigit(s[p])) ++p; return p > q && lit(";"); }
    return name() && lit(";");
  }
  bool value() {
    char q = at('"') ? '"' : at('\'') ? '\'' : 0;
    if (!q) return false;
    ++p;
    for (;;) {
      if (p >= s.size()) return false;
      char c = s[p];
      if (c == q) { ++p; return true; }
      if (c == '&') { if (!reference()) return false; continue; }
      if (common(c) || c == ']' || c == '-' || c == (q == '"' ? '\'' : '"')) { ++p; continue; }
      return false;
    }
  }
  bool fill() {
    for (;;) {
      if (!spaces()) return true;
      size_t q = p;
      if (!name()) { p = q; return true; }
      spaces();
      if (!lit("=")) return false;
      spaces();
      if (!value()) return false;
    }
  }
  bool comment() {
    for (;;) {
      if (p >= s.size()) return false;
      if (lit("-->")) return true;
      char c = s[p];
      if (c == '-') { ++p; if (p >= s.size()) return false; c = s[p]; }
      if (c == '-') return false;
      if (common(c) || c == '<' || c == '&' || c == '\'' || c == '"' || c == ']') { ++p; continue; }
      return false;
    }
  }
  bool element() {  // after '<'
    if (!name() || !fill()) return false;
    if (lit("/")) return lit(">");
    if (!lit(">")) return false;
    for (;;) {
      while (p < s.size() && (common(s[p]) || s[p] == '\'' || s[p] == '"' || s[p] == '-')) ++p;
      if (p >= s.size()) return false;
      if (at('&')) { if (!reference()) return false; continue; }
      if (!lit("<")) return false;
      if (lit("/")) { if (!name()) return false; spaces(); return lit(">"); }
      if (lit("!--")) { if (!comment()) return false; continue; }
      if (!element()) return false;
    }
  }
  bool document() {
    if (s.empty()) return false;
    for (;;) {
      if (p == s.size()) return true;
      if (!lit("<")) return false;
      if (lit("?")) { if (!name() || !fill() || !lit("?") || !lit(">")) return false; }
      else if (!element()) return false;
      spaces();
    }
  }
};
static string xml_name(Rng& r) {
  string s(1, "abcXYZ_:"[r.below(8)]);
  int n = int(r.below(5));
  for (int i = 0; i < n; ++i) s += "abZ09.-_:"[r.below(9)];
  return s;
}
static string xml_chars(Rng& r, char const* pool, int n) {
  string s, P = pool;
  for (int i = 0; i < n; ++i) {
    if (r.chance(0.06)) s += r.chance(0.5) ? "&" + xml_name(r) + ";" : fmt("&#%d;", int(r.below(1000)));
    else s += P[size_t(r.below(int64_t(P.size())))];
  }
  return s;
}
static string xml_fill(Rng& r) {
  string s;
  int n = int(r.below(4));
  for (int i = 0; i < n; ++i) {
    bool dq = r.chance(0.5);
    s += (r.chance(0.8) ? " " : "\n\t ") + xml_name(r) + (r.chance(0.2) ? " = " : "=") + (dq ? "\"" : "'") + xml_chars(r, dq ? "ab 1]-'/>=" : "ab 1]-\"/>=", int(r.below(6))) + (dq ? "\"" : "'");
  }
  if (r.chance(0.2)) s += " ";
  return s;
}
static string xml_element(Rng& r, int depth) {
  string nm = xml_name(r), f = xml_fill(r);
  if (r.chance(0.3)) return "<" + nm + f + "/>";
  string s = "<" + nm + f + ">";
  int n = int(r.below(depth > 0 ? 5 : 2));
  s += xml_chars(r, "abc 12\n'\"-;>[{}", int(r.below(8)));
  for (int i = 0; i < n; ++i) {
    if (depth > 0 && r.chance(0.6)) s += xml_element(r, depth - 1);
    else { string c; int m = int(r.below(6)); for (int j = 0; j < m; ++j) c += "ab <&'\">"[r.below(8)]; s += "<!--" + c + (r.chance(0.2) ? "-x" : "") + "-->"; }
    s += xml_chars(r, "abc 12\n", int(r.below(4)));
  }
  return s + "</" + (r.chance(0.9) ? nm : xml_name(r)) + (r.chance(0.1) ? " " : "") + ">";
}
static bool accepted(osh::ReaderTablesPtr t, string const& s, string& why) {
  Quiet quiet;
  try { osh::Reader rd(t); rd.read_string(s, "doc"); return true; }
  catch (std::exception const& e) { why = e.what(); return false; }
}
static void case_xml(Rng& r, int64_t) {
  string s;
  if (r.chance(0.4)) s += "<?xml" + xml_fill(r) + "?>" + (r.chance(0.7) ? "\n" : "");
  int n = int(r.range(1, 2));
  for (int i = 0; i < n; ++i) s += xml_element(r, 2) + (r.chance(0.5) ? "\n" : "");
  for (int k = 0; k < 4; ++k) {
    string t = k ? mutate(r, s, "<>/=\"'&;#-!?ab 1\n]\x7f\x01") : s;
    bool want = Xml(t).document();
    if (!k) VP_CHECK(want, "harness", "generated document is not one: %s", t.c_str());
    string why;
    bool got = accepted(osh::xml::ask_reader_tables(), t, why);
    VP_CHECK(got == want, want ? "xml-rejected" : "xml-accepted", "'%s': %s", t.c_str(), why.substr(0, 700).c_str());
    count(want ? "XML documents" : "malformed XML documents");
    Hash h; h.str(t); nontrivial(h.get());
  }
  sample(s);
  // single tags as the file readers use them
  for (int k = 0; k < 4; ++k) {
    string nm = xml_name(r);
    while (nm.find('/') != string::npos) nm = xml_name(r);
    int type = int(r.below(3));
    string t = string(size_t(r.below(3)), ' ') + (type == 1 ? "</" : "<") + nm;
    std::map<string, string> at;
    if (type != 1) {
      int na = int(r.below(4));
      for (int i = 0; i < na; ++i) {
        string an = xml_name(r), av;
        int m = int(r.below(8));
        bool dq = r.chance(0.5);
        for (int j = 0; j < m; ++j) av += "ab/>< =1.'\"&"[r.below(12)];
        for (auto& c : av) if (c == (dq ? '"' : '\'')) c = 'q';
        if (at.count(an)) continue;
        at[an] = av;
        t += string(size_t(r.range(1, 2)), ' ') + an + "=" + (dq ? "\"" : "'") + av + (dq ? "\"" : "'");
      }
    }
    if (r.chance(0.3)) t += " ";
    size_t bare = t.size();
    t += type == 2 ? "/>" : ">";
    osh::xml_lite::Tag tag;
    bool ok = osh::xml_lite::parse_tag(t, &tag);
    VP_CHECK(ok, "tag-rejected", "'%s'", t.c_str());
    if (ok) {
      VP_CHECK(tag.elem_name == nm, "tag-name", "'%s' gives '%s'", t.c_str(), tag.elem_name.c_str());
      auto want = type == 0 ? osh::xml_lite::Tag::START : type == 1 ? osh::xml_lite::Tag::END : osh::xml_lite::Tag::SELF_CLOSING;
      VP_CHECK(tag.type == want, "tag-type", "'%s' gives type %d", t.c_str(), int(tag.type));
      VP_CHECK(tag.attribs == at, "tag-attributes", "'%s'", t.c_str());
    }
    string cut = t.substr(0, size_t(r.below(int64_t(bare) + 1)));
    osh::xml_lite::Tag t2;
    VP_CHECK(!osh::xml_lite::parse_tag(cut, &t2), "tag-accepted", "'%s'", cut.c_str());
    count("tags");
  }
}

// ================================================================ grammars
struct Cfg {
  int nterm = 0;  // symbols below are terminals
  int nsym = 0;
  struct P { int lhs; vector<int> rhs; };
  vector<P> prods;
  int start = -1;
  vector<char> nullable;
  vector<vector<int>> by;
  void prepare() {
    nullable.assign(size_t(nsym), 0);
    for (bool ch = true; ch;) {
      ch = false;
      for (auto& p : prods) {
        if (nullable[size_t(p.lhs)]) continue;
        bool all = true;
        for (int s : p.rhs) all = all && s >= nterm && nullable[size_t(s)];
        if (all) { nullable[size_t(p.lhs)] = 1; ch = true; }
      }
    }
    by.assign(size_t(nsym), {});
    for (size_t i = 0; i < prods.size(); ++i) by[size_t(prods[i].lhs)].push_back(int(i));
  }
  // Earley recogniser
  bool accepts(vector<int> const& in) const {
    struct It { int p, dot, org; };
    size_t n = in.size();
    vector<vector<It>> S(n + 1);
    vector<std::set<std::array<int, 3>>> seen(n + 1);
    auto add = [&](size_t i, It x) { if (seen[i].insert({x.p, x.dot, x.org}).second) S[i].push_back(x); };
    for (int p : by[size_t(start)]) add(0, {p, 0, 0});
    for (size_t i = 0; i <= n; ++i) {
      for (size_t k = 0; k < S[i].size(); ++k) {
        It x = S[i][k];
        auto& pr = prods[size_t(x.p)];
        if (x.dot == int(pr.rhs.size())) {
          auto& from = S[size_t(x.org)];
          for (size_t j = 0; j < from.size(); ++j) {
            It y = from[j];
            auto& q = prods[size_t(y.p)];
            if (y.dot < int(q.rhs.size()) && q.rhs[size_t(y.dot)] == pr.lhs) add(i, {y.p, y.dot + 1, y.org});
          }
        } else {
          int s = pr.rhs[size_t(x.dot)];
          if (s < nterm) { if (i < n && in[i] == s) add(i + 1, {x.p, x.dot + 1, x.org}); }
          else {
            for (int q : by[size_t(s)]) add(i, {q, 0, int(i)});
            if (nullable[size_t(s)]) add(i, {x.p, x.dot + 1, x.org});
          }
        }
      }
      if (S[i].empty()) return false;
    }
    for (auto& x : S[n]) if (prods[size_t(x.p)].lhs == start && x.dot == int(prods[size_t(x.p)].rhs.size()) && x.org == 0) return true;
    return false;
  }
  // LALR(1) by merging canonical LR(1) states; true when there is no conflict
  bool lalr1(int* nstates) const {
    vector<std::set<int>> first(static_cast<size_t>(nsym));
    for (int t = 0; t < nterm; ++t) first[size_t(t)].insert(t);
    for (bool ch = true; ch;) {
      ch = false;
      for (auto& p : prods)
        for (int s : p.rhs) {
          for (int f : first[size_t(s)]) if (first[size_t(p.lhs)].insert(f).second) ch = true;
          if (s < nterm || !nullable[size_t(s)]) break;
        }
    }
    int eof = -1, acc = int(prods.size());
    auto rhs = [&](int p) { return p == acc ? vector<int>{start} : prods[size_t(p)].rhs; };
    using Core = std::set<std::pair<int, int>>;
    using State = std::map<std::pair<int, int>, std::set<int>>;  // (production, dot) -> lookaheads
    auto close = [&](State& st) {
      for (bool ch = true; ch;) {
        ch = false;
        auto copy = st;
        for (auto& kv : copy) {
          auto r = rhs(kv.first.first);
          size_t d = size_t(kv.first.second);
          if (d >= r.size() || r[d] < nterm) continue;
          std::set<int> la;
          size_t j = d + 1;
          for (; j < r.size(); ++j) {
            la.insert(first[size_t(r[j])].begin(), first[size_t(r[j])].end());
            if (r[j] < nterm || !nullable[size_t(r[j])]) break;
          }
          if (j == r.size()) la.insert(kv.second.begin(), kv.second.end());
          for (int q : by[size_t(r[d])]) {
            auto& dst = st[{q, 0}];
            for (int l : la) if (dst.insert(l).second) ch = true;
          }
        }
      }
    };
    std::map<Core, State> all;
    vector<Core> work;
    auto put = [&](State st) {
      Core c;
      for (auto& kv : st) if (kv.first.second > 0 || kv.first.first == acc) c.insert(kv.first);
      close(st);
      auto it = all.find(c);
      if (it == all.end()) { all[c] = st; work.push_back(c); return; }
      bool grew = false;
      for (auto& kv : st) for (int l : kv.second) if (it->second[kv.first].insert(l).second) grew = true;
      if (grew) work.push_back(c);
    };
    { State s0; s0[{acc, 0}].insert(eof); put(s0); }
    while (!work.empty()) {
      Core c = work.back(); work.pop_back();
      State st = all[c];
      std::map<int, State> next;
      for (auto& kv : st) {
        auto r = rhs(kv.first.first);
        if (size_t(kv.first.second) < r.size()) {
          auto& dst = next[r[size_t(kv.first.second)]][{kv.first.first, kv.first.second + 1}];
          dst.insert(kv.second.begin(), kv.second.end());
        }
      }
      for (auto& kv : next) put(kv.second);
    }
    *nstates = int(all.size());
    for (auto& kv : all) {
      std::map<int, int> act;
      for (auto& it : kv.second) {
        auto r = rhs(it.first.first);
        if (size_t(it.first.second) < r.size()) { if (r[size_t(it.first.second)] < nterm) act[r[size_t(it.first.second)]] |= 1; }
      }
      for (auto& it : kv.second) {
        auto r = rhs(it.first.first);
        if (size_t(it.first.second) == r.size())
          for (int l : it.second) { if (act[l]) return false; act[l] = 2; }
      }
    }
    return true;
  }
};
static Cfg from_language(osh::Language const& l) {
  Cfg g;
  std::map<string, int> id;
  for (auto& t : l.tokens) id[t.name] = g.nterm++;
  g.nsym = g.nterm;
  for (auto& p : l.productions) if (!id.count(p.lhs)) id[p.lhs] = g.nsym++;
  for (auto& p : l.productions) { Cfg::P q; q.lhs = id[p.lhs]; for (auto& s : p.rhs) q.rhs.push_back(id.at(s)); g.prods.push_back(q); }
  g.start = id[l.productions[0].lhs];
  g.prepare();
  return g;
}
// builds the derivation while parsing
struct TreeReader : osh::Reader {
  Cfg const* g;
  string bad;
  TreeReader(osh::ReaderTablesPtr t, Cfg const* gg) : osh::Reader(t), g(gg) {}
  using Item = std::pair<int, string>;  // symbol, text below
 protected:
  osh::any at_shift(int token, string& text) override { return Item(token, text); }
  osh::any at_reduce(int prod, vector<osh::any>& rhs) override {
    auto& p = g->prods[size_t(prod)];
    Item out(p.lhs, "");
    if (rhs.size() != p.rhs.size()) bad = "wrong number of children";
    for (size_t i = 0; i < rhs.size(); ++i) {
      auto& c = osh::any_cast<Item&>(rhs[i]);
      if (i < p.rhs.size() && c.first != p.rhs[i]) bad = "child does not fit its production";
      out.second += c.second;
    }
    return out;
  }
};
static void case_grammar(Rng& r, int64_t) {
  char const* tn[] = {"a", "b", "c", "d"};
  char const* nn[] = {"S", "T", "U", "V", "W"};
  for (int attempt = 0; attempt < 60; ++attempt) {
    int nt = int(r.range(1, 4)), nn_ = int(r.range(1, 5));
    osh::Language l;
    for (int i = 0; i < nt; ++i) l.tokens.push_back({tn[i], tn[i]});
    l.productions.push_back({"R", {"S"}});
    for (int i = 0; i < nn_; ++i) {
      int np = int(r.range(1, 3));
      for (int j = 0; j < np; ++j) {
        osh::Language::Production p;
        p.lhs = nn[i];
        int len = int(r.below(5));
        if (len == 4) len = 2;
        for (int k = 0; k < len; ++k) p.rhs.push_back(r.chance(0.55) ? tn[r.below(nt)] : nn[r.below(nn_)]);
        l.productions.push_back(p);
      }
    }
    Cfg g = from_language(l);
    // every nonterminal reachable and productive, else there is no single root
    vector<char> reach(size_t(g.nsym), 0), prod(size_t(g.nsym), 0);
    reach[size_t(g.start)] = 1;
    for (int t = 0; t < g.nterm; ++t) prod[size_t(t)] = 1;
    for (int it = 0; it <= g.nsym; ++it)
      for (auto& p : g.prods) {
        bool all = true;
        for (int s : p.rhs) { if (reach[size_t(p.lhs)]) reach[size_t(s)] = 1; all = all && prod[size_t(s)]; }
        if (all) prod[size_t(p.lhs)] = 1;
      }
    bool fine = true;
    for (int s = g.nterm; s < g.nsym; ++s) fine = fine && reach[size_t(s)] && prod[size_t(s)];
    int states = 0;
    if (!fine || !g.lalr1(&states)) continue;
    string desc;
    for (auto& p : l.productions) { desc += p.lhs + "->"; for (auto& s : p.rhs) desc += s; desc += " "; }
    if (ctx().opt.count("show")) emit("{\"t\":\"note\",\"g\":\"" + esc(desc) + "\"}");
    osh::ReaderTablesPtr tables;
    try { Quiet quiet; tables = osh::build_reader_tables(l); }
    catch (std::exception const& e) { viol("grammar-rejected", fmt("LALR(1) grammar %s is rejected: %s", desc.c_str(), e.what())); return; }
    int maxlen = nt <= 2 ? 6 : nt == 3 ? 5 : 4, nacc = 0, nrej = 0;
    for (int len = 1; len <= maxlen; ++len) {
      int64_t tot = 1;
      for (int i = 0; i < len; ++i) tot *= nt;
      for (int64_t w = 0; w < tot; ++w) {
        if (tot > 64 && !r.chance(64. / double(tot) + 0.1)) continue;
        string s; vector<int> in;
        int64_t v = w;
        for (int i = 0; i < len; ++i) { in.push_back(int(v % nt)); s += tn[v % nt]; v /= nt; }
        bool want = g.accepts(in);
        bool got = true; string why;
        TreeReader rd(tables, &g);
        { Quiet quiet;
          try {
            auto a = rd.read_string(s, "s");
            auto& it = osh::any_cast<TreeReader::Item&>(a);
            if (it.first != g.start || it.second != s) rd.bad = "derivation of something else: " + it.second;
          } catch (std::exception const& e) { got = false; why = e.what(); } }
        VP_CHECK(got == want, want ? "word-rejected" : "word-accepted", "grammar %s, word %s: %s", desc.c_str(), s.c_str(), why.substr(0, 500).c_str());
        if (got) VP_CHECK(rd.bad.empty(), "derivation", "grammar %s, word %s: %s", desc.c_str(), s.c_str(), rd.bad.c_str());
        ++(want ? nacc : nrej);
      }
    }
    count("words accepted", nacc); count("words rejected", nrej); count("grammars"); count("parser states", states);
    if (nacc && nrej && states > 4) { Hash h; h.str(desc); nontrivial(h.get()); }
    sample(desc);
    return;
  }
}

// ================================================================ regular expressions
struct Rx { char op; std::set<char> set; vector<std::shared_ptr<Rx>> c; };  // s set, . concat, | union, * + ?
using RxP = std::shared_ptr<Rx>;
static string const& symbols() {
  static string s;
  if (s.empty()) { s = "\t\n\r"; for (char c = 32; c < 127; ++c) s += c; }
  return s;
}
struct RxParser {
  string const& s; size_t p = 0; bool ok = true, grey = false;
  explicit RxParser(string const& x) : s(x) {}
  RxP mk(char op, vector<RxP> c) { auto n = std::make_shared<Rx>(); n->op = op; n->c = c; return n; }
  RxP fail() { ok = false; return mk('s', {}); }
  bool chr(char& c) {
    if (p >= s.size()) return false;
    if (s[p] == '\\') {
      if (p + 1 >= s.size() || symbols().find(s[p + 1]) == string::npos) return false;
      c = s[p + 1]; p += 2;
      return true;
    }
    if (strchr(".[]()|-^*+?", s[p]) || symbols().find(s[p]) == string::npos) return false;
    c = s[p++];
    return true;
  }
  RxP uni() {
    RxP a = cat();
    while (ok && p < s.size() && s[p] == '|') { ++p; a = mk('|', {a, cat()}); }
    return a;
  }
  RxP cat() {
    RxP a = qual();
    while (ok && p < s.size() && s[p] != '|' && s[p] != ')') a = mk('.', {a, qual()});
    return a;
  }
  RxP qual() {
    RxP a = single();
    while (ok && p < s.size() && (s[p] == '*' || s[p] == '+' || s[p] == '?')) a = mk(s[p++], {a});
    return a;
  }
  RxP single() {
    if (p >= s.size()) return fail();
    char c;
    if (chr(c)) { auto n = mk('s', {}); n->set = {c}; return n; }
    if (s[p] == '.') { ++p; auto n = mk('s', {}); n->set.insert(symbols().begin(), symbols().end()); return n; }
    if (s[p] == '(') { ++p; RxP a = uni(); if (!ok || p >= s.size() || s[p] != ')') return fail(); ++p; return a; }
    if (s[p] == '[') {
      ++p;
      bool neg = p < s.size() && s[p] == '^';
      if (neg) ++p;
      std::set<char> st;
      int items = 0;
      while (chr(c)) {
        ++items;
        if (p < s.size() && s[p] == '-') {
          ++p;
          char e;
          if (!chr(e)) return fail();
          if (c > e || c < 32 || e < 32) grey = true;
          for (int q = c; q <= e; ++q) st.insert(char(q));
        } else st.insert(c);
      }
      if (!items || p >= s.size() || s[p] != ']') return fail();
      ++p;
      auto n = mk('s', {});
      if (neg) { for (char q : symbols()) if (!st.count(q)) n->set.insert(q); } else n->set = st;
      return n;
    }
    return fail();
  }
  RxP all() { RxP a = uni(); if (ok && p != s.size()) ok = false; return a; }
};
using Pos = std::set<size_t>;
static Pos rx_match(RxP const& e, string const& w, Pos const& from) {
  switch (e->op) {
    case 's': { Pos o; for (auto p : from) if (p < w.size() && e->set.count(w[p])) o.insert(p + 1); return o; }
    case '.': return rx_match(e->c[1], w, rx_match(e->c[0], w, from));
    case '|': { Pos a = rx_match(e->c[0], w, from), b = rx_match(e->c[1], w, from); a.insert(b.begin(), b.end()); return a; }
    case '?': { Pos a = rx_match(e->c[0], w, from); a.insert(from.begin(), from.end()); return a; }
    default: {
      Pos all = e->op == '*' ? from : rx_match(e->c[0], w, from), cur = all;
      for (;;) {
        Pos nx = rx_match(e->c[0], w, cur), add;
        for (auto p : nx) if (all.insert(p).second) add.insert(p);
        if (add.empty()) return all;
        cur = add;
      }
    }
  }
}
static string rx_char(Rng& r, bool small) {
  char c = small ? "abc"[r.below(3)] : symbols()[size_t(r.below(int64_t(symbols().size())))];
  if (strchr(".[]()|-^*+?\\", c) || r.chance(0.05)) return string("\\") + c;
  return string(1, c);
}
static string rx_text(Rng& r, int depth, bool small, int prec) {  // 0 union 1 concat 2 qualified 3 single
  auto par = [&](string s, int p) { return p < prec ? "(" + s + ")" : s; };
  if (depth <= 0 || r.chance(0.1)) {
    if (r.chance(0.12)) return ".";
    if (r.chance(0.25)) {
      string s = r.chance(0.3) ? "[^" : "[";
      int n = int(r.range(1, 3));
      for (int i = 0; i < n; ++i) {
        if (r.chance(0.3)) { char a = char('a' + r.below(3)), b = char(a + r.below(3)); s += string(1, a) + "-" + string(1, b); }
        else s += rx_char(r, small);
      }
      return s + "]";
    }
    return rx_char(r, small);
  }
  switch (r.below(6)) {
    case 0: { string a = rx_text(r, depth - 1, small, 0); return par(a + "|" + rx_text(r, depth - 1, small, 1), 0); }
    case 1: case 2: case 3: { string a = rx_text(r, depth - 1, small, 1); return par(a + rx_text(r, depth - 1, small, 2), 1); }
    default: return par(rx_text(r, depth - 1, small, 2) + "*+?"[r.below(3)], 2);
  }
}
static void case_regex(Rng& r, int64_t) {
  bool small = r.chance(0.7);
  string s = rx_text(r, int(r.range(1, 5)), small, 0);
  if (r.chance(0.3)) s = mutate(r, s, "abc.[]()|-^*+?\\\n ");
  RxParser ps(s);
  RxP e = ps.all();
  if (s.empty()) return;
  osh::FiniteAutomaton fa;
  bool got = true; string why;
  int token = int(r.below(5));
  { Quiet quiet;
    try { fa = osh::regex::build_dfa("t", s, token); } catch (std::exception const& ex) { got = false; why = ex.what(); } }
  if (ps.ok && ps.grey) { count("regex without a verdict"); return; }
  VP_CHECK(got == ps.ok, ps.ok ? "regex-rejected" : "regex-accepted", "'%s': %s", s.c_str(), why.substr(0, 600).c_str());
  Hash h; h.str(s); nontrivial(h.get());
  sample(s);
  if (!ps.ok) { count("malformed regular expressions"); return; }
  if (!got) return;
  for (int k = 0; k < 60; ++k) {
    string w;
    int n = int(r.below(8));
    for (int i = 0; i < n; ++i) {
      double x = r.real();
      if (x < 0.75) w += "abc"[r.below(3)];
      else if (x < 0.9 && !s.empty()) { char c = s[size_t(r.below(int64_t(s.size())))]; w += c; }
      else w += symbols()[size_t(r.below(int64_t(symbols().size())))];
    }
    bool want = rx_match(e, w, {0}).count(w.size()) > 0;
    int st = 0;
    for (char c : w) { st = osh::step(fa, st, osh::get_symbol(c)); if (st == -1) break; }
    bool m = st != -1 && osh::accepts(fa, st) == token;
    VP_CHECK(m == want, "regex-match", "'%s' %s '%s'", s.c_str(), m ? "matches" : "does not match", w.c_str());
    if (st != -1 && !m) VP_CHECK(osh::accepts(fa, st) == -1, "regex-token", "'%s' accepts '%s' as token %d instead of %d", s.c_str(), w.c_str(), osh::accepts(fa, st), token);
    count(want ? "regex matches" : "regex mismatches");
  }
  // several expressions as one lexer: the longest match, then the first token
  int nt = int(r.range(2, 4));
  osh::Language l;
  vector<RxP> es; vector<string> txt;
  for (int i = 0; i < nt; ++i) {
    string t = rx_text(r, int(r.range(0, 3)), true, 0);
    RxParser q(t);
    RxP x = q.all();
    if (!q.ok || q.grey) return;
    l.tokens.push_back({fmt("T%d", i), t}); es.push_back(x); txt.push_back(t);
  }
  auto lexer = osh::build_lexer(l);
  for (int k = 0; k < 30; ++k) {
    string w;
    int n = int(r.range(1, 6));
    for (int i = 0; i < n; ++i) w += "abc"[r.below(3)];
    int want = -1;
    for (int i = nt; i-- > 0;) if (rx_match(es[size_t(i)], w, {0}).count(w.size())) want = i;
    int st = 0;
    for (char c : w) { st = osh::step(lexer, st, osh::get_symbol(c)); if (st == -1) break; }
    int g = st == -1 ? -1 : osh::accepts(lexer, st);
    VP_CHECK(g == want, "lexer-token", "lexer of '%s', '%s', ...: '%s' is token %d instead of %d", txt[0].c_str(), txt[1].c_str(), w.c_str(), g, want);
    count("lexer words");
  }
}

// ================================================================ YAML
struct Y { int k = 0; string s; vector<std::pair<string, std::shared_ptr<Y>>> m; vector<std::shared_ptr<Y>> l; };  // 0 scalar 1 map 2 list
using YP = std::shared_ptr<Y>;
struct YamlGen {
  Rng& r; string nl; char ind;
  static bool other(char c) { return !strchr(" \t:.-\"'\\|[]{}>,%#!\n\r", c); }
  static bool raw_ok(string const& s, bool map) {
    if (s.empty()) return false;
    size_t i = 0;
    if (s[0] == '.') { i = 1; if (s.size() > 1 && s[1] == '.') i = 2; }
    else if (s[0] == '-') i = 1;
    if (i >= s.size() || !other(s[i])) return false;
    for (++i; i < s.size(); ++i) if (!(other(s[i]) || strchr(" \t.-'", s[i]) || (map && s[i] == ','))) return false;
    return s.back() != ' ' && s.back() != '\t';
  }
  string scalar_text() {
    switch (r.below(9)) {
      case 0: return fmt("%d", int(r.range(-1000, 1000)));
      case 1: return fmt("%.6g", r.real(-10, 10));
      case 2: return r.chance(0.5) ? "true" : "false";
      case 3: return fmt("%lld", (long long)r.u64());
      case 4: return fmt("%de%d", int(r.range(1, 9)), int(r.range(-9, 9)));
      case 5: return "";
      default: {
        string s;
        int n = int(r.range(1, 10));
        for (int i = 0; i < n; ++i) s += r.chance(0.7) ? "abcxyz019_"[r.below(10)] : " \t:.-\"'\\|[]{}>,%!/$&*()=@"[r.below(25)];
        return s;
      }
    }
  }
  string key() {
    if (r.chance(0.75)) { string s; int n = int(r.range(1, 6)); for (int i = 0; i < n; ++i) s += i && i + 1 < n && r.chance(0.1) ? " .-"[r.below(3)] : "abcXYZ_1"[r.below(8)]; return s; }
    return scalar_text();
  }
  YP tree(int depth, bool map = false) {
    auto y = std::make_shared<Y>();
    if (map || (depth > 0 && r.chance(0.35))) {
      y->k = 1;
      int n = int(r.below(4)) + (map ? 1 : 0);
      std::set<string> seen;
      for (int i = 0; i < n; ++i) { string k = key(); if (k == "include" || !seen.insert(k).second) continue; y->m.push_back({k, tree(depth - 1)}); }
    } else if (depth > 0 && r.chance(0.4)) {
      y->k = 2;
      int n = int(r.below(4));
      for (int i = 0; i < n; ++i) y->l.push_back(tree(depth - 1));
    } else {
      y->s = scalar_text();
    }
    return y;
  }
  // a copy without values of several lines
  YP flat(YP const& y) {
    auto o = std::make_shared<Y>(*y);
    if (y->s.find('\n') != string::npos) o->s = scalar_text();
    for (auto& kv : o->m) kv.second = flat(kv.second);
    for (auto& v : o->l) v = flat(v);
    return o;
  }
  string ws(bool need = false) { return string(size_t(need ? 1 : 0) + (r.chance(0.2) ? size_t(r.below(3)) : need ? 0 : 1), ' '); }
  string eol() {
    string s;
    if (r.chance(0.08)) s += " # comment: [x";
    s += nl;
    while (r.chance(0.06)) s += r.chance(0.5) ? nl : "   # other" + nl;
    return s;
  }
  string quoted(string const& s) {
    bool hasr = false;
    (void)hasr;
    if (r.chance(0.5)) { string o = "'"; for (char c : s) { if (c == '\'') o += '\''; o += c; } return o + "'"; }
    string o = "\""; for (char c : s) { if (c == '"' || c == '\\') o += '\\'; o += c; } return o + "\"";
  }
  string scalar(string const& s, bool map) { return raw_ok(s, map) && r.chance(0.7) ? s : quoted(s); }
  string tag() { return r.chance(0.05) ? "!!str " : ""; }
  string flow(YP const& y) {
    if (y->k == 0) return scalar(y->s, false);
    string o = y->k == 1 ? "{" : "[";
    o += ws();
    if (y->k == 1) { for (size_t i = 0; i < y->m.size(); ++i) o += (i ? "," + ws() : "") + scalar(y->m[i].first, false) + ":" + ws(true) + tag() + flow(y->m[i].second) + (r.chance(0.1) ? " " : ""); }
    else for (size_t i = 0; i < y->l.size(); ++i) o += (i ? "," + ws() : "") + tag() + flow(y->l[i]) + (r.chance(0.1) ? " " : "");
    return o + (y->k == 1 ? "}" : "]") + (r.chance(0.1) ? " " : "");
  }
  // YAML's folding of the lines of a block
  static string fold(vector<string> const& l) {
    string o;
    auto text = [&](size_t i) { return !l[i].empty() && l[i][0] != ' ' && l[i][0] != '\t'; };
    for (size_t i = 0; i < l.size();) {
      o += l[i];
      size_t j = i + 1;
      if (l[i].empty()) { o += '\n'; ++i; continue; }
      while (j < l.size() && l[j].empty()) ++j;
      size_t breaks = j - i;
      if (j < l.size() && text(i) && text(j)) { if (--breaks == 0) o += ' '; }
      o += string(breaks, '\n');
      i = j;
    }
    return o;
  }
  // a block that yields a value
  string block_text(string& value, string const& in, bool lead, bool folded) {
    int n = int(r.range(1, 4));
    string o;
    vector<string> l;
    string first = lead ? string(size_t(r.below(3)), ind) : "";  // no line is indented less
    for (int i = 0; i < n; ++i) {
      string t;
      int m = int(r.range(1, 6));
      for (int j = 0; j < m; ++j) t += "abc1 :.-\"'\\|[]{},%!>"[r.below(20)];
      if (t[0] == ' ') t[0] = 'x';
      if (t.back() == ' ') t.back() = 'y';
      string extra = first + (i ? string(size_t(r.below(3)) * (r.chance(0.3) ? 1 : 0), ind) : "");
      o += in + extra + t + nl;
      l.push_back(extra + t);
      if (i + 1 < n && r.chance(0.2)) { o += nl; l.push_back(""); }
      if (i + 1 < n && r.chance(0.05)) { o += nl; l.push_back(""); }
    }
    value.clear();
    if (folded) value = fold(l);
    else for (auto& x : l) value += x + "\n";
    return o;
  }
  string value_lines(YP const& y, string const& in, bool top_in_seq) {  // after the key's ':' or the '-'
    bool empty = (y->k == 1 && y->m.empty()) || (y->k == 2 && y->l.empty());
    if (y->k == 0) {
      if (r.chance(0.12)) {
        string bt, deeper = in + string(size_t(r.range(1, 3)), ind);
        char chomp = "-+ "[r.below(3)];
        bool num = r.chance(0.25), folded = r.chance(0.25);
        bt = block_text(y->s, deeper, num, folded);
        if (chomp != '+') { while (!y->s.empty() && strchr(" \t\r\n", y->s.back())) y->s.pop_back(); if (chomp != '-') y->s += "\n"; }
        return ws(true) + (folded ? ">" : "|") + (num ? std::to_string(deeper.size() - in.size()) : "") + (chomp == ' ' ? "" : string(1, chomp)) + (r.chance(0.1) ? " " : "") + nl + bt;
      }
      return ws(true) + tag() + scalar(y->s, !top_in_seq) + eol();
    }
    if (empty || r.chance(0.25)) return ws(true) + tag() + flow(y) + eol();
    string deeper = in + string(size_t(r.range(1, 4)), ind);
    string o = (r.chance(0.15) ? " " : "") + eol();
    if (y->k == 1) return o + map_lines(y, deeper);
    for (auto& v : y->l) o += deeper + "-" + value_lines(v, deeper, true);
    return o;
  }
  string map_lines(YP const& y, string const& in) {
    string o;
    for (auto& kv : y->m) o += in + scalar(kv.first, false) + (r.chance(0.03) ? "" : "") + ":" + value_lines(kv.second, in, false);
    return o;
  }
};
static string spell(string const& s) { return "'" + s + "'"; }
static string same(osh::Input& in, Y const& y, string const& at) {
  if (y.k == 0) {
    if (!osh::is_type<osh::InputScalar>(in)) return at + " is no scalar";
    auto& sc = osh::as_type<osh::InputScalar>(in);
    string str = sc.str;  // line ends as YAML normalises them
    for (size_t i; (i = str.find("\r\n")) != string::npos;) str.erase(i, 1);
    if (str != y.s) return at + " is " + spell(str) + " instead of " + spell(y.s);
    // conversions
    int i = 0; long long ll = 0; double d = 0; bool b = false;
    char* end; errno = 0;
    bool plain = !y.s.empty() && (isdigit(y.s[0]) || y.s[0] == '-' || y.s[0] == '+');
    long long w = strtoll(y.s.c_str(), &end, 10);
    bool isll = plain && end == y.s.c_str() + y.s.size() && errno == 0;
    if (sc.as(ll) != isll || (isll && ll != w)) return at + " " + spell(y.s) + " as long long";
    bool isint = isll && w >= -2147483648LL && w <= 2147483647LL;
    if (sc.as(i) != isint || (isint && i != w)) return at + " " + spell(y.s) + " as int";
    errno = 0;
    double wd = strtod(y.s.c_str(), &end);
    bool isd = plain && end == y.s.c_str() + y.s.size() && y.s.find_first_of("xXnN") == string::npos;
    if (isd && (sc.as(d) != true || d != wd)) return at + " " + spell(y.s) + " as double";
    if (!isd && y.s.find_first_of(".0123456789") == string::npos && sc.as(d)) return at + " " + spell(y.s) + " is taken for a double";
    bool isb = y.s == "true" || y.s == "false";
    if (sc.as(b) != isb || (isb && b != (y.s == "true"))) return at + " " + spell(y.s) + " as bool";
    return "";
  }
  if (y.k == 1) {
    if (!osh::is_type<osh::InputMap>(in)) return at + " is no map";
    auto& m = osh::as_type<osh::InputMap>(in);
    if (m.map.size() != y.m.size()) return at + fmt(" has %d entries instead of %d", int(m.map.size()), int(y.m.size()));
    for (auto& kv : y.m) {
      auto it = m.map.find(kv.first);
      if (it == m.map.end()) return at + " has no " + spell(kv.first);
      if (it->second->parent != &m) return at + "." + kv.first + " has another parent";
      string e = same(*it->second, *kv.second, at + "." + kv.first);
      if (!e.empty()) return e;
    }
    return "";
  }
  if (!osh::is_type<osh::InputList>(in)) return at + " is no list";
  auto& l = osh::as_type<osh::InputList>(in);
  if (l.size() != int(y.l.size())) return at + fmt(" has %d items instead of %d", l.size(), int(y.l.size()));
  for (int i = 0; i < l.size(); ++i) {
    if (l.at(i).parent != &l || l.position(l.at(i)) != i) return at + fmt("[%d] has another place", i);
    string e = same(l.at(i), *y.l[size_t(i)], at + fmt("[%d]", i));
    if (!e.empty()) return e;
  }
  return "";
}
static void write_file(string const& p, string const& s) { std::ofstream f(p, std::ios::binary); f << s; }
// tokens of a YAML text with its indentation, or false
static bool yaml_tokens(string const& s, vector<int>& out) {
  using namespace osh::yaml;
  static string single = " :.-\"'\\|[]{}>,%!";
  static int tok[] = {TOK_SPACE, TOK_COLON, TOK_DOT, TOK_DASH, TOK_DQUOT, TOK_SQUOT, TOK_SLASH, TOK_PIPE, TOK_LSQUARE, TOK_RSQUARE, TOK_LCURLY, TOK_RCURLY, TOK_RANGLE, TOK_COMMA, TOK_PERCENT, TOK_EXCL};
  string cur;
  vector<std::pair<size_t, size_t>> stack;
  size_t i = 0;
  for (char c : s) if (symbols().find(c) == string::npos) return false;
  while (i < s.size()) {
    char c = s[i];
    if (c == '#' || c == '\n' || c == '\r') {
      size_t best = 0, p = i;
      for (;;) {
        size_t q = p;
        if (q < s.size() && s[q] == '#') while (q < s.size() && s[q] != '\r' && s[q] != '\n') ++q;
        if (q < s.size() && s[q] == '\r') ++q;
        if (q >= s.size() || s[q] != '\n') { break; }
        ++q;
        while (q < s.size() && (s[q] == ' ' || s[q] == '\t')) ++q;
        p = best = q;
      }
      if (!best) return false;
      // text that began another repetition and ends with the file is an error
      if (best < s.size()) {
        size_t q = best;
        if (s[q] == '#') while (q < s.size() && s[q] != '\r' && s[q] != '\n') ++q;
        if (q < s.size() && s[q] == '\r') ++q;
        if (q == s.size() && q > best) return false;
      }
      string text = s.substr(i, best - i);
      string in = text.substr(text.rfind('\n') + 1);
      out.push_back(TOK_NEWLINE);
      if (in.size() > cur.size()) {
        if (in.compare(0, cur.size(), cur)) return false;
        stack.push_back({cur.size(), in.size()});
        out.push_back(TOK_INDENT);
      } else if (in.size() < cur.size()) {
        if (cur.compare(0, in.size(), in)) return false;
        while (!stack.empty() && stack.back().second > in.size()) { stack.pop_back(); out.push_back(TOK_DEDENT); }
      } else if (in != cur) return false;
      cur = in;
      i = best;
      continue;
    }
    size_t k = single.find(c == '\t' ? ' ' : c);
    out.push_back(k == string::npos ? int(TOK_OTHER) : tok[k]);
    ++i;
  }
  return true;
}
static void case_yaml(Rng& r, int64_t) {
  YamlGen g{r, r.chance(0.85) ? "\n" : "\r\n", ' '};
  auto y = g.tree(int(r.range(1, 4)), true);
  if (y->m.empty()) return;
  string doc;
  if (r.chance(0.15)) doc += r.chance(0.5) ? "# head" + g.nl : g.nl;
  if (r.chance(0.2)) doc += "%YAML 1.2" + g.nl;
  if (r.chance(0.3)) doc += "---" + g.nl;
  doc += g.map_lines(y, "");
  if (r.chance(0.3)) doc += "..." + g.nl;
  string path = ctx().tmp + "/in.yaml";
  write_file(path, doc);
  {
    string err;
    try { Quiet quiet; auto m = osh::read_input(path); err = same(m, *y, ""); }
    catch (std::exception const& e) { err = string("is rejected: ") + e.what(); }
    VP_CHECK(err.empty(), "yaml-value", "%s in:\n%s", err.substr(0, 500).c_str(), doc.c_str());
  }
  Hash h; h.str(doc); nontrivial(h.get());
  sample(doc);
  count("YAML documents");
  y = g.flat(y);
  if (y->m.size() > 1 && r.chance(0.3)) {  // part of it from another file
    auto a = std::make_shared<Y>(), b = std::make_shared<Y>();
    a->k = b->k = 1;
    for (auto& kv : y->m) (r.chance(0.5) ? a : b)->m.push_back(kv);
    string inc = ctx().tmp + "/inc.yaml";
    if (!b->m.empty()) {
      string part = g.map_lines(b, "");
      write_file(inc, part);
      bool nested = r.chance(0.4);
      YP want = y;
      string top = g.map_lines(a, "");
      if (nested) {
        top += "sub~:" + g.nl + "  include: " + inc + g.nl;
        want = std::make_shared<Y>(); want->k = 1; want->m = a->m; want->m.push_back({"sub~", b});
      } else top += "include: '" + inc + "'" + g.nl;
      write_file(path, top);
      string err;
      try { Quiet quiet; auto m = osh::read_input(path); err = same(m, *want, ""); }
      catch (std::exception const& e) { err = string("is rejected: ") + e.what(); }
      VP_CHECK(err.empty(), "yaml-include", "%s in:\n%s\nwith:\n%s", err.substr(0, 500).c_str(), top.c_str(), part.c_str());
      count("YAML includes");
    }
  }
  // damaged documents
  static Cfg cfg = from_language(osh::yaml::build_language());
  for (int k = 0; k < 2; ++k) {
    string t = k ? mutate(r, doc, ":-'\"|>[]{},#! \n\tab.%\\") : doc;
    if (t.empty() || t.size() > 400) continue;
    vector<int> in;
    bool want = yaml_tokens(t, in) && cfg.accepts(in);
    string why;
    bool got = accepted(osh::yaml::ask_reader_tables(), t, why);
    VP_CHECK(got == want, want ? "yaml-rejected" : "yaml-accepted", "%s\n%s", why.substr(0, 500).c_str(), t.c_str());
    count(want ? "YAML texts accepted" : "YAML texts rejected");
    write_file(path, t);
    bool read = true;
    { Quiet quiet; try { auto m = osh::read_input(path); } catch (std::exception const&) { read = false; } }
    if (!want) VP_CHECK(!read, "yaml-read-malformed", "%s", t.c_str());
  }
  // the same key twice
  if (r.chance(0.2)) {
    string t = g.map_lines(y, "");
    auto& kv = y->m[size_t(r.below(int64_t(y->m.size())))];
    t += g.quoted(kv.first) + ": again" + g.nl;
    write_file(path, t);
    bool read = true;
    { Quiet quiet; try { auto m = osh::read_input(path); } catch (std::exception const&) { read = false; } }
    VP_CHECK(!read, "yaml-duplicate-key", "%s", t.c_str());
  }
}

// ================================================================ command lines
static void case_cmdline(Rng& r, int64_t) {
  struct A { int type; string name; int i; double d; string s; bool set; };
  struct F { string name; vector<A> a; bool set; };
  auto rnd = [&](int type) {
    A a; a.type = type; a.set = false; a.i = int(r.range(-99, 99)); a.d = r.real(-5, 5); a.s = fmt("s%d", int(r.below(100)));
    return a;
  };
  vector<F> flags; vector<A> args;
  char const* fn[] = {"--alpha", "-b", "--gamma", "delta", "--e-e"};
  int nf = int(r.below(6)), na = int(r.below(4));
  osh::CmdLine cl;
  vector<int> pick{0, 1, 2, 3, 4};
  r.shuffle(pick);
  auto add = [&](auto& to, A const& a) {
    if (a.type == 0) to.template add_arg<int>(a.name, a.i);
    else if (a.type == 1) to.template add_arg<double>(a.name, a.d);
    else to.template add_arg<string>(a.name, a.s);
  };
  for (int i = 0; i < std::min(nf, 5); ++i) {
    F f; f.name = fn[pick[size_t(i)]]; f.set = false;
    auto& cf = cl.add_flag(f.name, "description");
    int k = int(r.below(3));
    for (int j = 0; j < k; ++j) { A a = rnd(int(r.below(3))); a.name = fmt("fa%d", j); add(cf, a); f.a.push_back(a); }
    flags.push_back(f);
  }
  for (int i = 0; i < na; ++i) { A a = rnd(int(r.below(3))); a.name = fmt("arg%d", i); add(cl, a); args.push_back(a); }
  // the words
  vector<string> w;
  auto val = [&](int type) -> string {
    if (r.chance(0.06)) { char const* bad[] = {"abc", "1x", "", "1.5.2", "--alpha", "-", "12 ", "0x", "delta", "1e"}; return bad[r.below(10)]; }
    if (type == 0) return r.chance(0.04) ? "99999999999" : fmt("%d", int(r.range(-500, 500)));
    if (type == 1) return r.chance(0.3) ? fmt("%d", int(r.range(-5, 5))) : fmt("%.*g", int(r.range(2, 17)), r.real(-100, 100));
    return r.chance(0.15) ? fn[r.below(5)] : fmt("w%d", int(r.below(1000)));
  };
  vector<vector<string>> groups;
  for (auto& f : flags) if (r.chance(0.5)) {
    int rep = r.chance(0.05) ? 2 : 1;
    for (int q = 0; q < rep; ++q) {
      vector<string> v{f.name};
      for (auto& a : f.a) v.push_back(val(a.type));
      if (v.size() > 1 && r.chance(0.05)) v.pop_back();
      groups.push_back(v);
    }
  }
  r.shuffle(groups);
  {
    vector<vector<string>> pos;
    for (auto& a : args) if (!r.chance(0.05)) pos.push_back({val(a.type)});
    if (r.chance(0.08)) pos.push_back({r.chance(0.5) ? "extra" : "--bogus"});
    if (r.chance(0.04)) pos.push_back({"--help"});
    for (auto& p : pos) groups.insert(groups.begin() + long(r.below(int64_t(groups.size()) + 1)), p);
    // positional arguments keep no particular order among themselves: types decide below
  }
  for (auto& v : groups) w.insert(w.end(), v.begin(), v.end());
  // the model
  enum { OK, ERR } st = OK;
  bool help = false;
  vector<string> left;
  size_t npos = 0;
  auto conv = [&](A& a, string const& t) {
    char* e;
    if (a.type == 0) { errno = 0; long long v = strtoll(t.c_str(), &e, 10); if (t.empty() || *e || errno || v < -2147483648LL || v > 2147483647LL) return false; a.i = int(v); }
    else if (a.type == 1) { double v = strtod(t.c_str(), &e); if (t.empty() || *e) return false; a.d = v; }
    else a.s = t;
    a.set = true;
    return true;
  };
  for (size_t i = 0; i < w.size() && st == OK;) {
    F* f = nullptr;
    for (auto& x : flags) if (x.name == w[i]) f = &x;
    if (f) {
      if (f->set || w.size() - i - 1 < f->a.size()) { st = ERR; break; }
      ++i;
      for (auto& a : f->a) { if (!conv(a, w[i])) st = ERR; ++i; if (st == ERR) break; }
      if (st == OK) f->set = true;
    } else if (w[i] == "--help") { help = true; left.push_back(w[i]); ++i; }
    else if (npos < args.size()) { if (!conv(args[npos], w[i])) st = ERR; else { ++npos; ++i; } }
    else left.push_back(w[i++]);
  }
  if (npos < args.size()) st = ERR;
  string line = "prog";
  for (auto& x : w) line += " [" + x + "]";
  string spec;
  for (auto& f : flags) { spec += f.name; for (auto& a : f.a) spec += a.type == 0 ? " int" : a.type == 1 ? " double" : " string"; spec += ", "; }
  for (auto& a : args) spec += a.type == 0 ? "int " : a.type == 1 ? "double " : "string ";
  // the library
  vector<string> store = w;
  vector<char*> argv{const_cast<char*>("prog")};
  for (auto& s : store) argv.push_back(const_cast<char*>(s.c_str()));
  argv.push_back(nullptr);
  int argc = int(w.size()) + 1;
  bool final = r.chance(0.6), ok;
  { Quiet quiet; ok = final ? cl.parse_final(g_lib->self(), &argc, argv.data()) : cl.parse(g_lib->self(), &argc, argv.data()); }
  bool want = st == OK && (!final || (!help && left.empty()));
  VP_CHECK(ok == want, want ? "cmdline-rejected" : "cmdline-accepted", "options {%s}: %s", spec.c_str(), line.c_str());
  Hash h; h.str(line); h.str(spec); nontrivial(h.get());
  sample(spec + "| " + line);
  count(want ? "command lines accepted" : "command lines rejected");
  if (!ok || !want) return;
  VP_CHECK(argc == int(left.size()) + 1, "cmdline-left", "options {%s}: %s leaves %d words instead of %d", spec.c_str(), line.c_str(), argc - 1, int(left.size()));
  if (argc == int(left.size()) + 1)
    for (size_t i = 0; i < left.size(); ++i) VP_CHECK(left[i] == argv[i + 1], "cmdline-left", "options {%s}: %s leaves '%s' instead of '%s'", spec.c_str(), line.c_str(), argv[i + 1], left[i].c_str());
  auto check = [&](A const& a, string const& where, auto get) {
    bool good;
    string got;
    if (a.type == 0) { int v = get(int()); good = v == a.i; got = fmt("%d", v); }
    else if (a.type == 1) { double v = get(double()); good = biteq(v, a.d); got = fmt("%.17g", v); }
    else { string v = get(string()); good = v == a.s; got = v; }
    VP_CHECK(good, "cmdline-value", "options {%s}: %s gives %s = %s", spec.c_str(), line.c_str(), where.c_str(), got.c_str());
  };
  for (auto& f : flags) {
    VP_CHECK(cl.parsed(f.name) == f.set, "cmdline-set", "options {%s}: %s: %s is %s", spec.c_str(), line.c_str(), f.name.c_str(), f.set ? "given but not set" : "set but not given");
    for (size_t j = 0; j < f.a.size(); ++j) {
      auto& a = f.a[j];
      check(a, f.name + " " + a.name, [&](auto t) { return cl.get<decltype(t)>(f.name, a.name); });
      VP_CHECK(cl.parsed(f.name, j) == a.set, "cmdline-set", "options {%s}: %s: argument %d of %s", spec.c_str(), line.c_str(), int(j), f.name.c_str());
    }
  }
  for (size_t j = 0; j < args.size(); ++j) {
    check(args[j], args[j].name, [&](auto t) { return cl.get<decltype(t)>(args[j].name); });
    VP_CHECK(cl.parsed(j) == args[j].set, "cmdline-set", "options {%s}: %s: argument %d", spec.c_str(), line.c_str(), int(j));
  }
}

int main(int argc, char** argv) {
  parse_args(argc, argv);
  LibArgs la(argc, argv);
  Library lib(&la.argc, &la.argv);
  g_lib = &lib;
  auto m = ctx().mode;
  if (m == "expr") return run_cases(case_expr);
  if (m == "xml") return run_cases(case_xml);
  if (m == "grammar") return run_cases(case_grammar);
  if (m == "regex") return run_cases(case_regex);
  if (m == "yaml") return run_cases(case_yaml);
  if (m == "cmdline") return run_cases(case_cmdline);
  return 2;
}
