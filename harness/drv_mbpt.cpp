// Expectation values, similarity transformations, rewriting and predicted
// quantum numbers of expressions of abstract many-body operators; records them
// for OperatorMap.
#include "worlds.hpp"
#include <SeQuant/core/wick.hpp>
#include <SeQuant/domain/mbpt/context.hpp>
#include <SeQuant/domain/mbpt/models/cc.hpp>
#include <SeQuant/domain/mbpt/op.hpp>
#include <SeQuant/domain/mbpt/utils.hpp>
#include <SeQuant/domain/mbpt/vac_av.hpp>
using namespace vf;
namespace mb = sequant::mbpt;
using mb::Normalization;
using mb::nₕ;
using mb::nₚ;

// what an abstract operator is, said again
struct Abstract {
  ExprPtr op;
  wstring label;           // of its tensor
  Range cl{0, 0}, al{0, 0};
  int nc = 0, na = 0;
  Normalization norm = Normalization::Default;
  string sym = "A", bk = "N";
  bool adj = false;
  vector<Index> batch{};
  bool bare = false;       // no tensor
};
struct Ops {
  World& w;
  Rng& r;
  IdxTable& tab;
  vector<Abstract> known;
  std::map<std::pair<wstring, std::pair<int, int>>, Normalization> norms;
  int zs = 0;
  Range hole() { return w.range.at(wstring(get_default_context().index_space_registry()->hole_space(mb::Spin::any).base_key())); }
  Range part() { return w.range.at(wstring(get_default_context().index_space_registry()->particle_space(mb::Spin::any).base_key())); }
  Range all() { return w.range.at(L"p"); }
  static long fact(int n) { return n < 2 ? 1 : n * fact(n - 1); }
  string bk_general() {
    return bk_name(Tensor(L"f", bra{Index(L"p_1")}, ket{Index(L"p_2")}, Symmetry::Nonsymm, Hermiticity::Hermitian).braket_symmetry());
  }
  int add(Abstract a) {
    for (size_t k = 0; k < known.size(); ++k)
      if (*known[k].op == *a.op) return int(k) + 1;
    known.push_back(std::move(a));
    return int(known.size());
  }
  string json(const Abstract& a) {
    auto range = [](Range q) { return "{\"lo\":" + std::to_string(q.lo) + ",\"n\":" + std::to_string(q.n) + "}"; };
    long f = w.spinfree ? fact(a.nc) : fact(a.nc) * fact(a.na);
    ExprPtr s = a.norm == Normalization::Implicit ? ex<Constant>(1) : a.norm == Normalization::Default ? ex<Constant>(rational(1, f)) : ex<Power>(ex<Constant>(rational(1, f)), rational(1, 2));
    vector<int> x;
    for (auto& i : a.batch) x.push_back(int(i.ordinal().value()));  // z_k has the value k
    return "{\"h\":" + std::to_string(label_hash(a.label)) + ",\"l\":" + js(a.label) + ",\"sym\":\"" + a.sym + "\",\"bk\":\"" + a.bk + "\",\"cs\":true,\"adj\":" + (a.adj ? "true" : "false") +
           ",\"nt\":" + (a.bare ? "true" : "false") + ",\"cl\":" + range(a.cl) + ",\"al\":" + range(a.al) + ",\"nc\":" + std::to_string(a.nc) + ",\"na\":" + std::to_string(a.na) + ",\"s\":" + jexpr(*s, tab) + ",\"x\":" + jints(x) + "}";
  }
  string jop(const Expr& e) {
    for (size_t k = 0; k < known.size(); ++k)
      if (*known[k].op == e) return "{\"k\":\"o\",\"n\":" + std::to_string(k + 1) + "}";
    // the adjoint of one of them
    auto c = e.clone();
    c->adjoint();
    for (size_t k = 0; k < known.size(); ++k)
      if (*known[k].op == *c) {
        Abstract a = known[k];
        a.adj = !a.adj;
        a.op = e.clone();
        return "{\"k\":\"o\",\"n\":" + std::to_string(add(a)) + "}";
      }
    throw std::runtime_error("an operator that is not among those that went in: " + u8(e.as<mb::op_t>().label()));
  }
  // expressions of abstract operators
  string jx(const ExprPtr& x) {
    auto& e = *x;
    if (e.is<mb::op_t>()) return jop(e);
    if (e.is<Product>()) return "{\"k\":\"p\",\"s\":" + jscalar(e.as<Product>().scalar()) + ",\"a\":" + jlist(e.as<Product>().factors(), [&](auto& f) { return jx(f); }) + "}";
    if (e.is<Sum>()) return "{\"k\":\"+\",\"a\":" + jlist(e.as<Sum>().summands(), [&](auto& f) { return jx(f); }) + "}";
    return jexpr(e, tab);
  }
  static string text(const ExprPtr& x) {
    auto& e = *x;
    std::ostringstream o;
    if (e.is<mb::op_t>()) {
      o << u8(e.as<mb::op_t>().label()) << "[";
      for (auto q : e.as<mb::op_t>()()) { o << q.lower(); if (q.upper() != q.lower()) o << "-" << q.upper(); o << " "; }
      o << "]";
    } else if (e.is<Product>()) {
      o << "(" << e.as<Product>().scalar().real();
      for (auto& f : e.as<Product>().factors()) o << " " << text(f);
      o << ")";
    } else if (e.is<Sum>()) {
      o << "(";
      for (auto& f : e.as<Sum>().summands()) o << " + " << text(f);
      o << ")";
    } else return show(x);
    return o.str();
  }

  // --- operators ---
  // general, exciting, de-exciting
  Abstract shape(char cls, wstring label, int nc, int na) {
    Abstract a;
    a.label = label;
    a.nc = nc;
    a.na = na;
    a.cl = cls == 'g' ? all() : cls == 'e' ? part() : hole();
    a.al = cls == 'g' ? all() : cls == 'e' ? hole() : part();
    if (cls == 'g') a.bk = bk_general();
    if (w.spinfree) a.sym = "N";
    return a;
  }
  ExprPtr put(Abstract a, ExprPtr op) { a.op = op; add(a); return op; }
  bool physical() { return w.V.empty(); }
  ExprPtr h(int k) {
    if (k == 1) return put(shape('g', physical() ? L"h" : L"f", 1, 1), mb::op::h(1));
    return put(shape('g', L"g", 2, 2), mb::op::h(2));
  }
  ExprPtr H(int k) { h(1); if (k == 2) h(2); return mb::op::H(k); }
  ExprPtr theta(int k) { return put(shape('g', L"θ", k, k), mb::op::θ(k)); }
  ExprPtr F() { return put(shape('g', L"f", 1, 1), mb::op::F(true)); }
  ExprPtr t(int k) { return put(shape('e', L"t", k, k), mb::op::t(k)); }
  ExprPtr T(int k, bool skip1 = false) { for (int q = skip1 ? 2 : 1; q <= k; ++q) t(q); return mb::op::T(k, skip1); }
  ExprPtr l(int k) { return put(shape('d', L"λ", k, k), mb::op::λ(k)); }
  ExprPtr L(int k, bool skip1 = false) { for (int q = skip1 ? 2 : 1; q <= k; ++q) l(q); return mb::op::Λ(k, skip1); }
  Normalization norm(const wstring& l, int a, int b) {
    auto [it, fresh] = norms.try_emplace({l, {a, b}}, Normalization::Default);
    if (fresh) it->second = r.chance(70) ? Normalization::Default : r.chance(50) ? Normalization::Implicit : Normalization::SquareRoot;
    return it->second;
  }
  ExprPtr rr(int np, int nh) {
    auto n = norm(L"R", np, nh);
    auto a = shape('e', L"R", np, nh);
    a.norm = n;
    return put(a, mb::op::r(nₚ(np), nₕ(nh), n));
  }
  ExprPtr ll(int np, int nh) {
    auto n = norm(L"L", np, nh);
    auto a = shape('d', L"L", nh, np);
    a.norm = n;
    return put(a, mb::op::l(nₚ(np), nₕ(nh), n));
  }
  // all of R or L
  ExprPtr many(bool right, int np, int nh, Normalization n = Normalization::Default) {
    for (int p = np, q = nh; p >= 0 && q >= 0 && p + q > 0; --p, --q) {
      norms[{right ? L"R" : L"L", {p, q}}] = n;
      right ? rr(p, q) : ll(p, q);
      if (!p || !q) break;
    }
    return right ? mb::op::R(nₚ(np), nₕ(nh), n) : mb::op::L(nₚ(np), nₕ(nh), n);
  }
  // A, S, and P by the number of particles and holes; negative ones for de-excitation of A and S, excitation of P
  ExprPtr project(int np, int nh, bool viaP) {
    bool deex = np < 0 || nh < 0;
    int p = std::abs(np), q = std::abs(nh);
    auto a = deex ? shape('d', w.spinfree ? reserved::symm_label() : reserved::antisymm_label(), q, p) : shape('e', w.spinfree ? reserved::symm_label() : reserved::antisymm_label(), p, q);
    a.norm = Normalization::Implicit;
    a.bk = bk_general();  // same as of tensors created without any
    if (viaP) return put(a, p == q && r.chance(50) ? mb::op::P(nₚ(-np)) : mb::op::P(nₚ(-np), nₕ(-nh)));
    return put(a, w.spinfree ? mb::op::S(np) : mb::op::A(nₚ(np), nₕ(nh)));
  }
  // projectors of equation-of-motion methods
  ExprPtr delta(bool right, int np, int nh) {
    auto a = right ? shape('e', w.spinfree ? reserved::symm_label() : reserved::antisymm_label(), np, nh) : shape('d', w.spinfree ? reserved::symm_label() : reserved::antisymm_label(), nh, np);
    a.norm = Normalization::SquareRoot;
    a.bk = bk_general();
    return put(a, right ? mb::op::δr(nₚ(np), nₕ(nh)) : mb::op::δl(nₚ(np), nₕ(nh)));
  }
  // first-order ones, with nb batching indices
  ExprPtr first(char cls, int k, int nb) {
    auto a = shape(cls, cls == 'g' ? L"h¹" : cls == 'e' ? L"t¹" : L"λ¹", k, k);
    mb::OpParams p{.order = 1};
    if (nb) p.nbatch = nb;
    for (int z = 1; z <= nb; ++z) a.batch.push_back(Index(L"z_" + std::to_wstring(z)));
    zs = std::max(zs, nb);
    return put(a, cls == 'g' ? mb::op::Hʼ(k, p) : cls == 'e' ? mb::op::tʼ(k, p) : mb::op::λʼ(k, p));
  }
  ExprPtr firsts(char cls, int k, int nb) {
    auto s = std::make_shared<Sum>();
    for (int q = 1; q <= k; ++q) s->append(first(cls, q, nb));
    return s;
  }
  // perturbed ones
  ExprPtr order(char cls, int k, int ord) {
    static const wchar_t* sup[] = {L"", L"¹", L"²", L"³"};
    auto a = shape(cls, (cls == 'g' ? wstring(L"h") : cls == 'e' ? wstring(L"t") : wstring(L"λ")) + sup[ord], k, k);
    mb::OpParams p{.order = size_t(ord)};
    if (w.range.count(L"z") && r.chance(50)) {
      p.batch_ordinals.push_back(++zs);
      a.batch.push_back(Index(L"z_" + std::to_wstring(zs)));
    }
    return put(a, cls == 'g' ? mb::op::Hʼ(k, p) : cls == 'e' ? mb::op::tʼ(k, p) : mb::op::λʼ(k, p));
  }
  ExprPtr any(int maxrank) {
    int k = r.chance(60) ? 1 : maxrank;
    ExprPtr x;
    switch (r.below(12)) {
      case 0: x = h(1); break;
      case 1: x = maxrank > 1 ? h(2) : h(1); break;
      case 2: x = theta(k); break;
      case 3: case 4: x = t(k); break;
      case 5: case 6: x = l(k); break;
      case 7: x = w.spinfree || r.chance(50) ? rr(k, k) : r.chance(50) ? rr(k, k - 1) : rr(k - 1, k); break;
      case 8: x = w.spinfree || r.chance(50) ? ll(k, k) : r.chance(50) ? ll(k, k - 1) : ll(k - 1, k); break;
      case 9: x = r.chance(50) ? project(-k, -k, r.chance(50)) : project(k, k, false); break;
      case 10: x = r.chance(50) ? order('e', k, r.range(0, 3)) : order('d', k, r.range(0, 2)); break;
      default: x = order('g', k, r.range(0, 2));
    }
    if (r.chance(12)) {
      auto& a = known[add_index(x)];
      if (a.norm != Normalization::SquareRoot && a.label != reserved::antisymm_label() && a.label != reserved::symm_label()) {
        Abstract b = a;
        b.adj = !b.adj;
        auto y = x->clone();
        y->adjoint();
        return put(b, y);
      }
    }
    return x;
  }
  size_t add_index(const ExprPtr& x) {
    for (size_t k = 0; k < known.size(); ++k) if (*known[k].op == *x) return k;
    throw std::runtime_error("unknown operator");
  }
};

ExprPtr product(const vector<ExprPtr>& v, Rng& r) {
  auto p = std::make_shared<Product>();
  for (auto& f : v) p->append(1, f->clone(), Product::Flatten::No);
  if (r.chance(30)) p->scale(rational(r.range(1, 3), r.range(1, 4)));
  if (r.chance(8)) p->append(1, ex<Variable>(L"x"));
  return p;
}

int main(int argc, char** argv) {
  // drv_mbpt OUT SEED COUNT [ONLY]
  Out out(argv[1]);
  uint64_t seed = strtoull(argv[2], nullptr, 10);
  int count = atoi(argv[3]);
  int only = argc > 4 ? atoi(argv[4]) : -1;
  set_num_threads(1);
  TensorCanonicalizer::register_instance(std::make_shared<DefaultTensorCanonicalizer>());
  TensorCanonicalizer::set_cardinal_tensor_labels(mb::cardinal_tensor_labels());
  mb::set_default_mbpt_context(mb::Context({.csv = mb::CSV::No, .op_registry_ptr = mb::make_legacy_registry()}));
  for (int c = 0; c < count; ++c) {
    if (only >= 0 && c != only) continue;
    Rng r(seed * 1000003 + c);
    static const Kind worlds[] = {SR, SR, SR, SR, SRphys, MR, MR, FC, SF, SF};
    World w = make_world(worlds[r.below(10)], r, IndexSpace::QuantumNumbers(mb::Spin::any));
    bool reference = w.kind == MR && r.chance(50);
    int m = w.range.at(L"p").n;
    if (reference) {
      w.range = {{L"i", {0, 1}}, {L"u", {1, 3}}, {L"a", {4, 1}}, {L"I", {0, 4}}, {L"A", {1, 4}}, {L"p", {0, 5}}};
      w.V = {1};
      m = 5;
    }
    if (w.spinfree) m *= 2;
    if (w.kind == SR && r.chance(40)) {
      auto isr = get_default_context().mutable_index_space_registry();
      isr->add(IndexSpace{L"z", 0b1000000, mb::BatchingQNS::batch});
      w.range[L"z"] = {0, 9};
    }
    Index::reset_tmp_index();
    auto range = [&](const Index& i) { return w.range.at(wstring(i.space().base_key())); };
    IdxTable tab(range);
    Ops g{w, r, tab, {}, {}, 0};
    vector<string> checks, names, shows, errs;
    string kind, given;
    auto attempt = [&](const string& name, auto&& f) {
      auto e = guarded(f);
      if (e.size() > 400) { size_t n = 400; while ((e[n] & 0xc0) == 0x80) --n; e.resize(n); }
      if (!e.empty()) errs.push_back(name + ": " + e);
    };
    auto put = [&](const string& name, const string& how, const string& fields, const ExprPtr& x) {
      auto y = x ? x : ex<Constant>(0);
      auto j = g.jx(y);
      if (j.size() > 400000) return;
      checks.push_back("{\"how\":\"" + how + "\",\"e\":" + j + "," + fields + "}");
      names.push_back(name);
      shows.push_back(Ops::text(y));
      if (shows.back().size() > 3000) { size_t n = 3000; while ((shows.back()[n] & 0xc0) == 0x80) --n; shows.back().resize(n); }
    };
    std::map<Index, int> fixed;  // free indices
    int mode = int(r.below(100));
    bool equations = (w.kind == SR || w.kind == SF || w.kind == FC) && r.chance(20);
    bool small = w.spinfree || w.kind == SRphys;
    int top = small && r.chance(80) ? 1 : 2;
    if (getenv("VF_TRACE")) std::cerr << "case " << c << std::endl;
    if (equations) {
      kind = "equations";
      int N = r.chance(w.spinfree ? 70 : 30) ? 1 : 2;
      using A = mb::CC::Ansatz;
      A ansatz = r.chance(70) ? A::T : A::U;
      if (N > 1 && r.chance(30)) ansatz = ansatz == A::T ? A::oT : A::oU;
      bool uni = ansatz == A::U || ansatz == A::oU;
      int what = int(r.below(uni ? 5 : 8));
      if (what == 7 || (uni && what >= 3)) { N = 1; ansatz = uni ? A::U : A::T; }  // others take minutes
      mb::CC::Options o{.ansatz = ansatz, .screen = r.chance(60), .use_topology = r.chance(70)};
      if (N > 1 && (ansatz != A::oT || what > 2)) o.screen = true;
      if (uni) { o.hbar_comm_rank = r.range(1, 2); o.pertbar_comm_rank = r.range(1, 2); }
      else if (r.chance(30)) o.hbar_comm_rank = r.range(1, 4);
      if (!uni && r.chance(20)) o.pertbar_comm_rank = r.range(1, 2);
      if (N > 1 && ansatz == A::T && r.chance(20)) o.skip_singles = true;
      mb::CC cc(N, o);
      bool skip1 = cc.skip_singles();
      const string none = "{\"k\":\"c\",\"s\":{\"re\":[0,1],\"im\":[0,1]}}", one = "{\"k\":\"c\",\"s\":{\"re\":[1,1],\"im\":[0,1]}}";
      auto part = [&](const ExprPtr& of, const ExprPtr& a, const ExprPtr& b, int n, vector<ExprPtr> cm = {}, string aj = "") {
        return "{\"of\":" + (of ? g.jx(of) : one) + ",\"A\":" + (a ? g.jx(a) : aj) + ",\"B\":" + (b ? g.jx(b) : none) + ",\"Bx\":" + (b && uni ? g.jx(sequant::adjoint(b)) : none) + ",\"n\":" + std::to_string(n) +
               ",\"u\":" + (uni ? "true" : "false") + ",\"right\":" + one + ",\"cm\":" + jlist(cm, [&](auto& x) { return g.jx(x); }) + "}";
      };
      auto parts = [&](vector<string> v) { return "\"parts\":" + jlist(v, [](auto& x) { return x; }); };
      auto onel = [&](const ExprPtr& l) { return ExprPtr(ex<Sum>(ExprPtrList{ex<Constant>(1), l})); };
      auto omega = [&](int sign, const ExprPtr& x) { auto p = std::make_shared<Product>(); p->append(sign, ex<Variable>(L"ω")); p->append(1, x, Product::Flatten::No); return ExprPtr(p); };
      auto H = [&] { return g.H(2); };
      auto T = [&] { return g.T(N, skip1); };
      auto L = [&] { return g.L(N, skip1); };
      int hb = o.hbar_comm_rank ? int(*o.hbar_comm_rank) : 4, hb3 = o.hbar_comm_rank ? int(*o.hbar_comm_rank) : 3, pb = o.pertbar_comm_rank ? int(*o.pertbar_comm_rank) : 2;
      int nb = w.range.count(L"z") && r.chance(50) ? r.range(1, 2) : 0;
      auto nbatch = nb ? std::optional<size_t>(nb) : std::nullopt;
      given = "CC" + std::to_string(N) + " ansatz " + std::to_string(int(ansatz)) + " rank " + std::to_string(hb) + "/" + std::to_string(pb) + (skip1 ? " without singles" : "") + (o.screen ? " screened" : "") + ": ";
      attempt("equations", [&] {
        if (getenv("VF_TRACE")) std::cerr << given << what << std::endl;
        if (what == 0) {
          given += "t";
          int pmin = r.range(0, 1), pmax = r.chance(60) ? N : r.range(pmin, 3);
          auto eqs = r.chance(40) ? cc.t() : cc.t(pmax, pmin);
          for (size_t p = 0; p < eqs.size(); ++p) if (eqs[p]) put("t" + std::to_string(p), "series", parts({part(p ? g.project(-int(p), -int(p), true) : nullptr, H(), T(), hb)}), eqs[p]);
        } else if (what == 1) {
          given += "energy";
          auto n = r.chance(40) ? std::optional<size_t>(r.range(uni ? 1 : 0, uni ? 2 : 4)) : std::nullopt;
          put("energy", "series", parts({part(nullptr, H(), T(), n ? int(*n) : hb)}), cc.energy(n));
        } else if (what == 2) {
          given += "density";
          int rank = small || r.chance(60) ? 1 : 2;
          auto n = r.chance(30) ? std::optional<size_t>(r.range(1, 2)) : std::nullopt;
          auto got = cc.rdm(rank, n);
          auto a = mb::op::ã(rank)->as<mb::op_t>().tensor_form();
          for (int k = 1; k <= 2 * rank; ++k) fixed[Index(L"p_" + std::to_wstring(k))] = w.range[L"p"].lo + 1 + int(r.below(w.range[L"p"].n));
          put("density", "series", parts({part(uni ? nullptr : onel(L()), nullptr, T(), n ? int(*n) : uni ? hb : std::min(2 * rank, rank + N), {}, jexpr(*a, tab))}), got);
        } else if (what == 3) {
          given += "t'";
          auto eqs = cc.tʼ(1, 1, nbatch);
          for (int p = 1; p <= N; ++p) put("t'" + std::to_string(p), "series", parts({part(g.project(-p, -p, true), g.first('g', 1, nb), T(), pb), part(g.project(-p, -p, true), H(), T(), hb3, {g.firsts('e', N, nb)}), part(omega(-1, g.project(-p, -p, true)), g.first('e', p, nb), nullptr, 0)}), eqs[p]);
        } else if (what == 4 || what == 5) {
          bool right = uni || what == 4;
          given += right ? "eom_r" : "eom_l";
          int np = r.range(1, N), nh = np;
          if (!w.spinfree && r.chance(50)) (r.chance(50) ? np : nh) -= 1;
          if (!w.spinfree && r.chance(15)) { np = r.range(0, 2); nh = r.range(np ? 0 : 1, 2); }
          auto eqs = right ? cc.eom_r(nₚ(np), nₕ(nh)) : cc.eom_l(nₚ(np), nₕ(nh));
          auto x = g.many(right, np, nh, Normalization::SquareRoot);
          for (int p = np, q = nh; p >= 0 && q >= 0 && p + q > 0; --p, --q) {
            auto d = g.delta(!right, p, q);
            put("eom" + std::to_string(p) + std::to_string(q), "series", parts({right ? part(d, H(), T(), hb, {x}) : part(x, H(), T(), hb, {d})}), eqs[std::min(p, q)]);
          }
        } else if (what == 6) {
          given += "lambda";
          auto eqs = cc.λ();
          put("lambda0", "series", parts({part(nullptr, H(), sequant::adjoint(L()), hb)}), eqs[0]);
          for (int p = 1; p <= N; ++p) put("lambda" + std::to_string(p), "series", parts({part(onel(L()), H(), T(), hb - 1, {g.project(p, p, true)})}), eqs[p]);
        } else {
          given += "lambda'";
          if (ansatz != A::T) return;
          auto eqs = cc.λʼ(1, 1, nbatch);
          for (int p = 1; p <= N; ++p) {
            auto x = g.project(p, p, true);
            put("lambda'" + std::to_string(p), "series", parts({part(onel(L()), g.first('g', 1, nb), T(), pb, {x}), part(onel(L()), H(), T(), 3, {g.firsts('e', N, nb), x}), part(g.firsts('d', N, nb), H(), T(), hb, {x}),
                part(omega(1, g.first('d', p, nb)), x, nullptr, 0)}), eqs[p]);
          }
        }
      });
    } else if (mode < 40 || reference) {
      kind = reference ? "reference" : "average";
      // something whose average is not zero
      vector<ExprPtr> v;
      int k = r.range(1, top);
      int way = reference ? 5 : int(r.below(6));
      if (w.kind == SRphys && way < 4) way = 5;
      if (way == 0) v = {g.project(-k, -k, r.chance(70)), g.H(top), g.T(r.range(1, top)), g.T(r.range(1, top), false)};
      else if (way == 1) v = {g.L(r.range(1, top)), g.H(top), g.T(r.range(1, top))};
      else if (way == 2) v = {g.project(-k, -k, true), r.chance(50) ? g.h(top) : g.theta(r.range(1, top)), r.chance(50) ? g.t(k) : g.rr(k, k)};
      else if (way == 3 && !w.spinfree) {
        bool ip = r.chance(50);
        v = {ip ? g.ll(k - 1, k) : g.ll(k, k - 1), g.H(top), ip ? g.many(true, k - 1, k) : g.many(true, k, k - 1)};
        if (r.chance(50)) v.insert(v.begin() + 2, g.T(1));
      } else if (way == 4) v = {g.l(k), g.t(k)};
      if (v.empty()) {
        int n = r.range(2, small ? 2 : 3), legs = 0;
        for (int q = 0; q < n; ++q) {
          v.push_back(g.any(legs > 5 ? 1 : top));
          legs += 2 * (g.known[g.add_index(v.back())].nc);
        }
        if (reference) for (auto& q : v) while (true) { auto& a = g.known[g.add_index(q)]; if (a.nc == a.na) break; q = g.any(1); }
      }
      auto e = product(v, r);
      if (r.chance(20)) e = ex<Sum>(ExprPtrList{e, ex<Constant>(rational(r.range(1, 3), 2)) * product({v[0], v[1]}, r)});
      given = Ops::text(e);
      if (getenv("VF_TRACE")) std::cerr << given << std::endl;
      auto of = [&] { return "\"of\":" + g.jx(e); };
      auto o = of();
      auto vev = [&](const string& name, auto&& f) { attempt(name, [&] { put(name, reference ? "ref" : "vev", o, f()); }); };
      bool both = r.chance(40);
      bool screen = r.chance(60), topo = r.chance(70);
      if (reference) {
        vev("ref_av", [&] { return mb::op::ref_av(e->clone(), {.connect = {}, .screen = screen, .use_topology = topo}); });
        attempt("vac_av", [&] { put("vac_av", "vev", o, mb::op::vac_av(e->clone(), {.connect = {}, .screen = true})); });
      } else {
        vev("vac_av", [&] { return mb::op::vac_av(e->clone(), {.connect = {}, .screen = screen, .use_topology = topo}); });
        if (both && w.kind != MR) vev("ref_av", [&] { return mb::op::ref_av(e->clone(), {.connect = {}, .screen = !screen, .use_topology = !topo}); });
        if (r.chance(25)) vev("tensor", [&] {
          auto x = e->clone();
          mb::op::lower_to_tensor_form(x);
          expand(x);
          simplify(x);
          return mb::op::tensor::vac_av(x, {.use_topology = topo});
        });
        if (r.chance(25) && e->is<Product>()) vev("screened", [&] { return mb::op::vac_av(mb::screen_vac_av(e->clone()), {.connect = {}, .screen = false}); });
      }
    } else if (mode < 60) {
      kind = "moves";
      vector<ExprPtr> v;
      int n = r.range(1, small ? 3 : 4);
      for (int q = 0; q < n; ++q) v.push_back(g.any(top));
      auto e = n == 1 && r.chance(50) ? v[0] : product(v, r);
      given = Ops::text(e);
      attempt("predictions", [&] {
        auto iv = mb::op::apply_to_vac(e);
        string f = "\"of\":" + g.jx(e) + ",\"iv\":[";
        for (size_t k = 0; k < iv.size(); ++k) f += (k ? ",[" : "[") + std::to_string(iv[k].lower()) + "," + std::to_string(iv[k].upper()) + "]";
        f += "],\"base\":[";
        bool first = true;
        for (auto& s : get_default_context().index_space_registry()->base_spaces()) {
          auto q = w.range.at(wstring(s.base_key()));
          if (s.base_key() == L"z") q = {30, 0};
          f += string(first ? "" : ",") + "{\"lo\":" + std::to_string(q.lo) + ",\"n\":" + std::to_string(q.n) + "}";
          first = false;
        }
        auto b = [](bool x) { return x ? "true" : "false"; };
        auto rg = [](Range q) { return "{\"lo\":" + std::to_string(q.lo) + ",\"n\":" + std::to_string(q.n) + "}"; };
        string a1, a2, a3, a4;
        for (int k = 0; k < 5; ++k) {
          string s = k ? "," : "";
          a1 += s + b(mb::op::raises_vacuum_to_rank(e, k));
          a2 += s + b(mb::op::raises_vacuum_up_to_rank(e, k));
          a3 += s + b(mb::op::lowers_rank_to_vacuum(e, k));
          a4 += s + b(mb::op::lowers_rank_or_lower_to_vacuum(e, k));
        }
        f += "],\"raises\":[" + a1 + "],\"raisesup\":[" + a2 + "],\"lowers\":[" + a3 + "],\"lowersup\":[" + a4 + "],\"vac\":" + b(mb::op::can_change_qns(e, mb::qns_t{})) +
             ",\"phys\":" + b(g.physical()) + ",\"hole\":" + rg(g.hole()) + ",\"particle\":" + rg(g.part());
        put("predictions", "moves", f, ex<Constant>(0));
        shows.back() = f.substr(f.find("\"iv\""));
      });
    } else if (mode < 80) {
      kind = "lie";
      int rank = r.range(0, small ? 2 : 3);
      auto a = [&]() -> ExprPtr {
        switch (r.below(5)) {
          case 0: return g.H(top);
          case 1: return g.h(r.range(1, top));
          case 2: return product({g.any(top), g.any(1)}, r);
          case 3: return ex<Sum>(ExprPtrList{g.any(top), product({g.any(1), g.any(1)}, r)});
          default: return g.any(top);
        }
      };
      auto A = a();
      auto B = r.chance(60) ? g.T(r.range(1, top)) : r.chance(40) ? g.any(top) : r.chance(50) ? g.t(top) : g.L(top);
      bool u = r.chance(35);
      if (u) {
        rank = std::min(rank, 2);
        bool root = false;
        for (auto& q : g.known) root |= q.norm == Normalization::SquareRoot || q.label == reserved::antisymm_label() || q.label == reserved::symm_label();
        if (root) u = false;
      }
      given = Ops::text(A) + " by " + Ops::text(B);
      string f;
      attempt("fields", [&] { f = "\"A\":" + g.jx(A) + ",\"B\":" + g.jx(B) + ",\"Bx\":" + (u ? g.jx(sequant::adjoint(B)) : "{\"k\":\"c\",\"s\":{\"re\":[0,1],\"im\":[0,1]}}") + ",\"n\":" + std::to_string(rank) + ",\"u\":" + (u ? "true" : "false"); });
      if (r.chance(60)) attempt("lst", [&] { put("lst", "lie", f, mb::lst(A->clone(), B->clone(), rank, {.unitary = u})); });
      else {
        // as an average, with commutators or connected products
        bool connected = !u && (w.kind == SR || w.kind == FC || w.kind == SF) && r.chance(60);
        if (connected) {
          g.known.clear();
          A = r.chance(60) ? g.H(top) : g.h(r.range(1, top));
          B = g.T(r.range(1, top), false);
          f = "\"A\":" + g.jx(A) + ",\"B\":" + g.jx(B) + ",\"Bx\":{\"k\":\"c\",\"s\":{\"re\":[0,1],\"im\":[0,1]}},\"n\":" + std::to_string(rank) + ",\"u\":false";
          given = Ops::text(A) + " by " + Ops::text(B);
        }
        ExprPtr left = r.chance(30) ? ExprPtr(ex<Constant>(1)) : r.chance(60) ? g.project(-1, -1, true) : g.project(-top, -top, true);
        f += ",\"of\":" + g.jx(left) + ",\"right\":{\"k\":\"c\",\"s\":{\"re\":[1,1],\"im\":[0,1]}}";
        attempt("average", [&] {
          auto x = left * mb::lst(A->clone(), B->clone(), rank, {.unitary = u, .use_connected_form = connected});
          put(connected ? "connected" : "average", "series", "\"parts\":[{" + f + ",\"cm\":[]}]", connected ? mb::op::vac_av(x) : mb::op::vac_av(x, {.connect = {}, .screen = r.chance(70)}));
        });
      }
    } else {
      kind = "rewriting";
      vector<ExprPtr> v;
      int n = r.range(1, 3);
      for (int q = 0; q < n; ++q) v.push_back(r.chance(70) ? g.any(top) : r.chance(50) ? g.H(top) : ExprPtr(ex<Sum>(ExprPtrList{g.any(1), ex<Constant>(rational(1, 3)) * g.any(top)})));
      auto e = n == 1 ? v[0]->clone() : product(v, r);
      if (r.chance(30)) { r.shuffle(v); e = ex<Sum>(ExprPtrList{e, product(v, r)}); }
      given = Ops::text(e);
      string o;
      attempt("fields", [&] { o = "\"of\":" + g.jx(e); });
      auto same = [&](const string& name, auto&& f) { attempt(name, [&] { put(name, "map", o, f(e->clone())); }); };
      same("simplify", [](ExprPtr x) { return simplify(x); });
      if (r.chance(50)) same("expand", [](ExprPtr x) { return expand(x); });
      if (r.chance(30)) same("canonicalize", [](ExprPtr x) { return canonicalize(x); });
      if (n == 1 || r.chance(20)) same("tensor", [](ExprPtr x) { return mb::op::lower_to_tensor_form(x); });
      if (n == 1 && !v[0]->is<Sum>()) {
        bool root = false;
        for (auto& q : g.known) root |= q.norm == Normalization::SquareRoot || q.label == reserved::antisymm_label() || q.label == reserved::symm_label();
        if (!root) same("adjoint-twice", [](ExprPtr x) { x = sequant::adjoint(x); return sequant::adjoint(x); });
      }
    }
    if (checks.empty() && errs.empty()) continue;
    // batching indices stand for themselves
    string env;
    vector<int> ext;
    for (int z = 1; z <= g.zs; ++z) {
      Index i(L"z_" + std::to_wstring(z));
      ext.push_back(tab(i));
    }
    for (auto& [i, v] : fixed) ext.push_back(tab(i));
    vector<int> val(tab.rows.size(), 0);
    for (int z = 1; z <= g.zs; ++z) val[ext[z - 1] - 1] = z;
    for (auto& [i, v] : fixed) val[tab(i) - 1] = v;
    vector<int> starts = iota(1 << m);
    r.shuffle(starts);
    if (starts.size() > (kind == "moves" ? 32u : 6u)) starts.resize(kind == "moves" ? 32 : 6);
    string phi = "[";
    if (reference) {
      bool first = true;
      int n = r.range(1, 2);
      for (int s = 0; s < 8; ++s) if (__builtin_popcount(s) == n) { phi += string(first ? "" : ",") + "[" + std::to_string(1 + 2 * s) + "," + std::to_string(r.range(1, 9)) + "]"; first = false; }
    }
    phi += "]";
    auto quoted = [](auto& v) { return jlist(v, [](auto& s) { return js(s); }); };
    string ops = jlist(g.known, [&](auto& a) { return g.json(a); });
    out.line("{\"id\":" + std::to_string(c) + ",\"kind\":" + js(kind) + ",\"world\":" + std::to_string(w.kind) + ",\"err\":" + quoted(errs) + ",\"st\":\"" + w.st + "\",\"V\":" + jints(w.V) + ",\"m\":" + std::to_string(m) +
             ",\"starts\":" + jints(starts) + ",\"idx\":" + tab.json() + ",\"ext\":" + jints(ext) + ",\"env\":" + jints(val) + ",\"ops\":" + ops + ",\"phi\":" + phi + ",\"rdm\":[" + std::to_string(label_hash(L"γ")) + "," + std::to_string(label_hash(L"Γ")) +
             "],\"checks\":" + jlist(checks, [](auto& s) { return s; }) + ",\"names\":" + quoted(names) + ",\"shows\":" + quoted(shows) + ",\"show\":" + js(given) + "}");
  }
  return 0;
}
