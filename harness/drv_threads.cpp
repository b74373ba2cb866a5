// The same computations with different numbers of threads, several times;
// records the terms of each result for Schedules.
#include "worlds.hpp"
#include <SeQuant/core/optimize/optimize.hpp>
#include <SeQuant/core/wick.hpp>
#include <SeQuant/domain/mbpt/context.hpp>
#include <SeQuant/domain/mbpt/op.hpp>
#include <SeQuant/domain/mbpt/utils.hpp>
#include <SeQuant/domain/mbpt/vac_av.hpp>
using namespace vf;
namespace mb = sequant::mbpt;

// the terms, whatever their order
static vector<string> terms(const ExprPtr& e) {
  vector<string> r;
  if (!e) r.push_back("null");
  else if (e->is<Sum>()) for (auto& s : *e) r.push_back(show(s));
  else r.push_back(show(e));
  std::sort(r.begin(), r.end());
  return r;
}
// like terms, presented differently
static ExprPtr nets(Rng& r, bool ops) {
  auto s = std::make_shared<Sum>();
  NetOptions o;
  o.ops = ops;
  o.max_tensors = 3;
  o.aux = r.chance(40);
  o.bk = r.chance(20);
  int kinds = r.range(2, 6), n = r.range(4, 14);
  // the same tensors connected differently, with the same externals
  vector<Net> v{random_net(r, o)};
  for (int k = 1; k < kinds; ++k) {
    Net m = v[0];
    vector<int> side(m.idx.size(), -1);
    for (auto& t : m.t) { for (int b : t.bra) side[b] = 0; for (int b : t.ket) side[b] = 1; for (int b : t.aux) side[b] = 2; }
    vector<int> to = iota(m.idx.size());
    int x = int(r.below(m.idx.size())), y = int(r.below(m.idx.size()));
    if (m.idx[x].ext && m.idx[y].ext && m.idx[x].sp == m.idx[y].sp && side[x] == side[y]) std::swap(to[x], to[y]);
    for (auto& t : m.t) for (auto* q : {&t.bra, &t.ket, &t.aux}) for (auto& b : *q) b = to[b];
    if (r.chance(60)) for (auto& t : m.t) if (r.chance(50)) t.sig.label = wstring(1, wchar_t(L'A' + r.below(26))) + L"x";
    v.push_back(m);
  }
  for (int k = 0; k < n; ++k) {
    auto& m = r.pick(v);
    m.num = r.range(1, 5);
    m.den = r.range(1, 3);
    auto p = random_pres(m, r);
    s->append(net_expr(m, p));
  }
  return s;
}
static ExprPtr hamiltonian(Rng& r, int rank) { return r.chance(70) ? mb::op::H(rank) : ex<Sum>(ExprPtrList{mb::op::H(1), r.chance(50) ? mb::op::T(1) : mb::op::Λ(1)}); }

int main(int argc, char** argv) {
  // drv_threads OUT SEED COUNT [ONLY]
  Out out(argv[1]);
  uint64_t seed = strtoull(argv[2], nullptr, 10);
  int count = atoi(argv[3]), only = argc > 4 ? atoi(argv[4]) : -1;
  TensorCanonicalizer::register_instance(std::make_shared<DefaultTensorCanonicalizer>());
  for (int c = 0; c < count; ++c) {
    if (only >= 0 && c != only) continue;
    Rng r(seed * 1000003 + c);
    string kind, given;
    std::function<ExprPtr()> run;
    int mode = int(r.below(100));
    auto world = [&] {
      World w = make_world(SR, r, mb::Spin::any);
      mb::set_default_mbpt_context(mb::Context({.csv = mb::CSV::No, .op_registry_ptr = mb::make_minimal_registry()}));
      return w;
    };
    string err = guarded([&] {
      if (mode < 30) {
        set_default_context({.index_space_registry_shared_ptr = net_registry(), .vacuum = Vacuum::SingleProduct, .assert_strict_braket_symmetry = false, .spbasis = SPBasis::Spinor, .first_dummy_index_ordinal = 100});
        bool simp = r.chance(50), rapid = r.chance(15);
        auto e = nets(r, false);
        kind = simp ? "simplify" : rapid ? "rapid_canonicalize" : "canonicalize";
        given = show(e);
        run = [=] {
          auto x = e->clone();
          if (simp) simplify(x); else if (rapid) rapid_simplify(x); else canonicalize(x);
          return x;
        };
      } else if (mode < 40) {
        kind = "optimize";
        set_default_context({.index_space_registry_shared_ptr = net_registry(), .vacuum = Vacuum::SingleProduct, .assert_strict_braket_symmetry = false, .spbasis = SPBasis::Spinor, .first_dummy_index_ordinal = 100});
        auto e = nets(r, false);
        given = show(e);
        bool reorder = r.chance(50);
        run = [=] { return optimize(e->clone(), OptimizeOptions{.reorder = reorder ? ReorderSum::Reorder : ReorderSum::NoReorder}); };
      } else if (mode < 70) {
        kind = "wick";
        world();
        auto H = hamiltonian(r, 2);
        int k = r.range(1, 2);
        ExprPtr e = r.chance(50) ? H * mb::op::T(k) : mb::op::Λ(1) * H * mb::op::T(1);
        if (r.chance(30)) e = e + H;
        given = show(e);
        auto x = e->clone();
        mb::op::lower_to_tensor_form(x);
        expand(x);
        bool full = r.chance(60), topo = r.chance(60), skip = r.chance(20);
        if (!full) kind = "partial";
        run = [=] {
          
          FWickTheorem wt(x->clone());
          wt.full_contractions(full).use_topology(topo);
          auto y = wt.compute(false, skip);
          simplify(y);
          return y;
        };
      } else if (mode < 85) {
        kind = "average";
        world();
        auto H = hamiltonian(r, 2);
        int k = r.range(1, 2);
        ExprPtr e = r.chance(50) ? mb::op::P(mb::nₚ(k)) * (H + H * mb::op::T(k)) : mb::op::Λ(1) * H * (mb::op::T(1) + mb::op::T(k));
        given = show(e);
        bool screen = r.chance(50);
        run = [=] {  return mb::op::vac_av(e->clone(), {.connect = {}, .screen = screen}); };
      } else {
        kind = "series";
        world();
        auto H = hamiltonian(r, 2);
        ExprPtr B = r.chance(50) ? mb::op::T(2) : mb::op::T(1) - adjoint(mb::op::T(1));
        int n = r.range(1, 3);
        given = show(H) + ", " + show(B);
        bool skip = r.chance(50);
        run = [=] {
          auto x = mb::lst(H->clone(), B->clone(), n, mb::LSTOptions{.unitary = false});
          if (!skip) simplify(x);
          return x;
        };
      }
    });
    string rows;

    if (err.empty())
      for (int t : {1, 2, 3, 8, 8, 8, 1, 8, 8}) {
        set_num_threads(t);
        vector<string> v;
        string e = guarded([&] { v = terms(run()); });
        if (!e.empty()) v = {"exception"};

        rows += string(rows.empty() ? "" : ",") + "{\"threads\":" + std::to_string(t) + ",\"terms\":" + jlist(v, [](auto& s) { return js(s); }) + "}";

      }
    out.line("{\"id\":" + std::to_string(c) + ",\"kind\":" + js(kind) + ",\"given\":" + js(given) + ",\"err\":" + js(err) + ",\"runs\":[" + rows + "]}");
  }
  return 0;
}
