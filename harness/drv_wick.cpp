// Wick's theorem on random operator products; records input and results for
// SameOperator.
#include "worlds.hpp"
#include <SeQuant/core/wick.hpp>
using namespace vf;

// a product of tensors and normal operators over dummy and external indices
struct NopSpec { vector<Index> c, a; };
template <Statistics S> ExprPtr nop(const NopSpec& n) { return ex<NormalOperator<S>>(cre(n.c), ann(n.a), get_default_context().vacuum()); }
ExprPtr nop(const World& w, const NopSpec& n) { return w.stat == Statistics::BoseEinstein ? nop<Statistics::BoseEinstein>(n) : nop<Statistics::FermiDirac>(n); }

struct Case {
  World w;
  Rng& r;
  vector<Index> ext, dummies;
  double loops = 1;
  int next = 1;
  Case(World w_, Rng& r_) : w(std::move(w_)), r(r_) {}
  Index fresh(const wstring& sp, bool external) {
    Index i(sp + L"_" + std::to_wstring(next++));
    if (external) ext.push_back(i);
    else { dummies.push_back(i); loops *= w.range[sp].n; }
    return i;
  }
  // numbers of creators and annihilators
  std::pair<int, int> rank(int maxr) {
    if (w.spinfree) { int n = r.range(1, maxr); return {n, n}; }
    int c = int(r.below(100));
    if (c < 60) { int n = r.chance(65) ? 1 : r.range(1, maxr); return {n, n}; }
    return {r.range(0, maxr), r.range(0, maxr)};
  }
  // the operator of a tensor: t{bra;ket} a+(bra) a(ket)
  void attached(vector<ExprPtr>& tens, vector<ExprPtr>& ops, double budget) {
    auto [nc, na] = rank(2);
    if (nc + na == 0) nc = 1;
    NopSpec n;
    auto sp1 = r.pick(w.spaces), sp2 = r.pick(w.spaces);
    if (r.chance(30)) { sp1 = w.spaces[r.below(2)]; sp2 = w.spaces[1 - (sp1 == w.spaces[1])]; }
    bool uniform = r.chance(75);
    vector<Index> b, k;
    if (loops * w.range[sp1].n * w.range[sp2].n > budget) return bare(ops, 1);
    while (nc > 1 && loops * std::pow(w.range[sp1].n, nc) * std::pow(w.range[sp2].n, na) > budget) --nc;
    while (na > 1 && loops * std::pow(w.range[sp1].n, nc) * std::pow(w.range[sp2].n, na) > budget) --na;
    if (w.spinfree) nc = na = std::min(nc, na);
    for (int q = 0; q < nc; ++q) { auto sp = uniform ? sp1 : r.pick(w.spaces); auto i = fresh(sp, false); n.c.push_back(i); b.push_back(i); }
    for (int q = 0; q < na; ++q) { auto sp = uniform ? sp2 : r.pick(w.spaces); auto i = fresh(sp, false); n.a.push_back(i); k.push_back(i); }
    static const wchar_t* names[] = {L"t", L"g", L"f", L"h"};
    int l = int(r.below(4));
    bool bos = w.stat == Statistics::BoseEinstein;
    auto sym = w.spinfree ? Symmetry::Nonsymm : l < 2 ? (bos ? Symmetry::Symm : Symmetry::Antisymm) : Symmetry::Nonsymm;
    tens.push_back(ex<Tensor>(names[l], bra(b), ket(k), aux{}, sym, BraKetSymmetry::Nonsymm, l == 3 && !w.spinfree ? ColumnSymmetry::Nonsymm : ColumnSymmetry::Symm));
    ops.push_back(nop(w, n));
  }
  // operators whose legs can be contracted completely
  void balanced(vector<ExprPtr>& tens, vector<ExprPtr>& ops, double budget, bool bare_only) {
    int n = r.range(2, 4), m = r.range(std::max(1, n - 2), 4);
    bool bos = w.stat == Statistics::BoseEinstein;
    vector<vector<wstring>> c(n), a(n);
    bool phys = w.V.empty();
    auto hole = [&] { wstring s; do s = r.pick(w.spaces); while (w.range[s].lo >= int(w.V.size()) / (w.spinfree ? 2 : 1)); return s; };
    auto part = [&] { wstring s; do s = r.pick(w.spaces); while (!phys && w.range[s].lo + w.range[s].n <= int(w.V.size()) / (w.spinfree ? 2 : 1)); return s; };
    wstring h = phys ? L"i" : hole(), v = part();
    bool uniform = r.chance(60);
    for (int q = 0; q < m; ++q) {
      int x = int(r.below(n - 1)), y = r.range(x + 1, n - 1);
      if (!phys && r.chance(50)) { c[x].push_back(uniform ? h : hole()); a[y].push_back(uniform ? h : hole()); }
      else { a[x].push_back(uniform ? v : part()); c[y].push_back(uniform ? v : part()); }
    }
    static const wchar_t* names[] = {L"t", L"g", L"f", L"h"};
    for (int q = 0; q < n; ++q) {
      if (c[q].empty() && a[q].empty()) continue;
      double cost = loops;
      for (auto& s : c[q]) cost *= w.range[s].n;
      for (auto& s : a[q]) cost *= w.range[s].n;
      bool attach = !bare_only && cost <= budget && r.chance(85);
      NopSpec s;
      for (auto& x : c[q]) s.c.push_back(fresh(x, !attach));
      for (auto& x : a[q]) s.a.push_back(fresh(x, !attach));
      if (attach) {
        int l = int(r.below(4));
        auto sym = l < 2 ? (bos ? Symmetry::Symm : Symmetry::Antisymm) : Symmetry::Nonsymm;
        tens.push_back(ex<Tensor>(names[l], bra(s.c), ket(s.a), aux{}, sym, BraKetSymmetry::Nonsymm, l == 3 ? ColumnSymmetry::Nonsymm : ColumnSymmetry::Symm));
      }
      ops.push_back(nop(w, s));
    }
  }
  void bare(vector<ExprPtr>& ops, int maxr) {
    auto [nc, na] = rank(maxr);
    if (nc + na == 0) na = 1;
    NopSpec n;
    auto sp1 = r.pick(w.spaces), sp2 = r.pick(w.spaces);
    bool uniform = r.chance(60);
    for (int q = 0; q < nc; ++q) n.c.push_back(fresh(uniform ? sp1 : r.pick(w.spaces), true));
    for (int q = 0; q < na; ++q) n.a.push_back(fresh(uniform ? sp2 : r.pick(w.spaces), true));
    ops.push_back(nop(w, n));
  }
};

template <Statistics S>
ExprPtr wick(const ExprPtr& e, bool full, bool topo, const vector<Index>* ext, const vector<std::pair<int, int>>& need, const vector<std::pair<int, int>>& avoid, bool skip) {
  auto run = [&](auto&& wt) {
    wt.full_contractions(full).use_topology(topo);
    if (ext) wt.set_external_indices(*ext);
    if (!need.empty()) wt.set_nop_connections(need);
    if (!avoid.empty()) wt.set_nop_avoided_connections(avoid);
    return wt.compute(false, skip);
  };
  return run(WickTheorem<S>(e));
}
ExprPtr wick(const World& w, const ExprPtr& e, bool full, bool topo, const vector<Index>* ext = nullptr, const vector<std::pair<int, int>>& need = {}, const vector<std::pair<int, int>>& avoid = {}, bool skip = false) {
  auto c = e.is<FNOperatorSeq>() || e.is<BNOperatorSeq>() ? e : e->clone();
  auto x = w.stat == Statistics::BoseEinstein ? wick<Statistics::BoseEinstein>(c, full, topo, ext, need, avoid, skip) : wick<Statistics::FermiDirac>(c, full, topo, ext, need, avoid, skip);
  return x;
}

int main(int argc, char** argv) {
  // drv_wick OUT SEED COUNT [ONLY]
  Out out(argv[1]);
  uint64_t seed = strtoull(argv[2], nullptr, 10);
  int count = atoi(argv[3]);
  int only = argc > 4 ? atoi(argv[4]) : -1;
  set_num_threads(1);
  TensorCanonicalizer::register_instance(std::make_shared<DefaultTensorCanonicalizer>());
  for (int c = 0; c < count; ++c) {
    if (only >= 0 && c != only) continue;
    Rng r(seed * 1000003 + c);
    static const Kind kinds[] = {SR, SR, SR, SRphys, MR, MR, FC, Boson, SFphys, SF};
    Case k(make_world(kinds[r.below(10)], r), r);
    World& w = k.w;
    Index::reset_tmp_index();
    vector<ExprPtr> forms;
    vector<string> f, names, shows;
    vector<std::pair<int, int>> need, avoid;
    vector<string> err;
    auto put = [&](const char* name, const char* how, auto&& fn) {
      ExprPtr x;
      auto e = guarded([&] { x = fn(); });
      if (!e.empty()) { err.push_back(string(name) + ": " + e); return; }
      if (!x) x = ex<Constant>(0);
      forms.push_back(x);
      f.push_back(how);
      names.push_back(name);
      shows.push_back(show(x));
    };
    int mode = int(r.below(100));
    auto pairs = [&](int n, int m) {
      vector<std::pair<int, int>> v;
      for (int q = 0; q < m; ++q) {
        int x = int(r.below(n)), y = int(r.below(n));
        if (x == y) continue;
        if (x > y) std::swap(x, y);
        if (std::find(v.begin(), v.end(), std::pair(x, y)) == v.end()) v.push_back({x, y});
      }
      return v;
    };
    if (mode < 35) {
      // a sequence of normal operators, all of whose indices are external
      vector<ExprPtr> ops;
      int n = r.range(1, 4), total = 0;
      if (r.chance(50) && !w.spinfree) { k.balanced(ops, ops, 0, true); n = 0; }
      for (int q = 0; q < n && total < 8; ++q) { k.bare(ops, total < 5 ? 2 : 1); total += int(w.stat == Statistics::BoseEinstein ? ops.back()->as<BNOperator>().size() : ops.back()->as<FNOperator>().size()); }
      n = int(ops.size());
      auto prod = std::make_shared<Product>();
      for (auto& o : ops) prod->append(1, o->clone(), Product::Flatten::No);
      ExprPtr in(prod);
      ExprPtr seq;
      auto mkseq = [&]<Statistics S>(std::integral_constant<Statistics, S>) {
        vector<NormalOperator<S>> v;
        for (auto& o : ops) v.push_back(o->as<NormalOperator<S>>());
        using Seq = NormalOperatorSequence<S>;
        return v.size() == 1 ? ex<Seq>(Seq{v[0]}) : v.size() == 2 ? ex<Seq>(Seq{v[0], v[1]}) : v.size() == 3 ? ex<Seq>(Seq{v[0], v[1], v[2]}) : ex<Seq>(Seq{v[0], v[1], v[2], v[3]});
      };
      if (w.stat == Statistics::BoseEinstein) seq = mkseq(std::integral_constant<Statistics, Statistics::BoseEinstein>{});
      else seq = mkseq(std::integral_constant<Statistics, Statistics::FermiDirac>{});
      put("input", "op", [&] { return in; });
      if (r.chance(50)) put("partial", "op", [&] { return wick(w, seq, false, r.chance(50)); });
      else if (r.chance(50) || n < 2) put("full", "vev", [&] { return wick(w, seq, true, r.chance(50)); });
      else {
        if (r.chance(70)) need = pairs(n, r.range(1, 2));
        if (r.chance(50)) avoid = pairs(n, r.range(1, 2));
        put("connected", "conn", [&] { return wick(w, seq, true, r.chance(50), nullptr, need, avoid); });
      }
    } else {
      // tensors and operators
      double budget = w.spinfree ? 64 : 256;
      vector<ExprPtr> tens, ops;
      int n = r.range(1, 3);
      bool spec_ext = r.chance(25);
      bool full = r.chance(60);
      if (!full) budget = 32;
      if (full && r.chance(70) && !w.spinfree) { k.balanced(tens, ops, budget, false); n = 0; }
      for (int q = 0; q < n; ++q) {
        if (r.chance(75)) k.attached(tens, ops, budget);
        else k.bare(ops, 1 + r.chance(30));
      }
      n = int(ops.size());
      auto prod = std::make_shared<Product>();
      vector<ExprPtr> fs = tens;
      r.shuffle(fs);
      bool first = r.chance(70);
      if (first) for (auto& t : fs) prod->append(1, t);
      for (auto& o : ops) prod->append(1, o);
      if (!first) for (auto& t : fs) prod->append(1, t);
      if (r.chance(40)) prod->scale(rational(r.range(1, 3), r.range(1, 4)));
      if (r.chance(10)) prod->append(1, ex<Variable>(L"x"));
      ExprPtr in(prod);
      if (r.chance(15)) {
        // a sum of operators in one place: [t a + u a'] ...
        auto extra = in->clone();
        in = ex<Sum>(ExprPtrList{in, ex<Constant>(rational(1, 2)) * extra});
      }
      // indices used twice that are nevertheless external
      vector<Index> ext = k.ext;
      if (spec_ext && !k.dummies.empty()) {
        auto i = r.pick(k.dummies);
        k.ext.push_back(i);
        if (k.ext.size() > 1 && r.chance(30)) k.ext.erase(k.ext.begin() + r.below(k.ext.size() - 1));  // used once, but summed
        ext = k.ext;
        // canonicalization has to be told, too
        auto copt = CanonicalizeOptions::default_options();
        copt.named_indices = container::set<Index>(ext.begin(), ext.end());
        auto ctx = get_default_context();
        ctx.set(copt);
        set_default_context(ctx);
      } else spec_ext = r.chance(30);
      const vector<Index>* pe = spec_ext ? &ext : nullptr;
      put("input", "op", [&] { return in; });
      if (full) {
        if (n > 1 && in->is<Product>() && r.chance(40)) {
          if (r.chance(70)) need = pairs(n, r.range(1, 2));
          if (r.chance(40)) avoid = pairs(n, r.range(1, 2));
          put("connected", "conn", [&] { return wick(w, in, true, r.chance(50), pe, need, avoid, true); });
        } else {
          put("full", "vev", [&] { return wick(w, in, true, true, pe); });
          if (r.chance(50)) put("full-notopology", "vev", [&] { return wick(w, in, true, false, pe); });
          if (r.chance(30)) put("full-simplified", "vev", [&] { auto x = wick(w, in, true, true, pe); if (x && !spec_ext) simplify(x); return x; });
        }
      } else {
        put("partial", "op", [&] { return wick(w, in, false, r.chance(50), pe); });
        if (r.chance(40) && !spec_ext) put("simplify", "op", [&] { auto x = in->clone(); simplify(x); return x; });
        else if (!spec_ext) put("canonicalize", "op", [&] { auto x = in->clone(); canonicalize(x); return x; });
      }
    }
    if (forms.size() < 2 && err.empty()) continue;
    auto range = [&](const Index& i) { return w.range.at(wstring(i.space().base_key())); };
    IdxTable t(range);
    vector<std::pair<int, Range>> ext;
    for (auto& i : k.ext) ext.push_back({t(i), range(i)});
    vector<string> es;
    for (auto& x : forms) es.push_back(jexpr(x, t));
    auto jp = [](auto& v) { return jlist(v, [](auto& p) { return "[" + std::to_string(p.first + 1) + "," + std::to_string(p.second + 1) + "]"; }); };
    auto jss = [](auto& v) { return jlist(v, [](auto& s) { return js(s); }); };
    vector<int> exts;
    for (auto& [id, rg] : ext) exts.push_back(id);
    string err1;
    for (auto& e : err) err1 += (err1.empty() ? "" : "; ") + e;
    out.line("{\"id\":" + std::to_string(c) + ",\"kind\":" + std::to_string(w.kind) + ",\"err\":" + js(err1) + ",\"st\":\"" + w.st + "\",\"V\":" + jints(w.V) + ",\"starts\":" + jints(w.starts) +
             ",\"need\":" + jp(need) + ",\"avoid\":" + jp(avoid) + ",\"idx\":" + t.json() + ",\"ext\":" + jints(exts) + ",\"as\":" + assignments(ext, r, 3) + ",\"e\":" + jlist(es, [](auto& s) { return s; }) +
             ",\"f\":" + jss(f) + ",\"names\":" + jss(names) + ",\"shows\":" + jss(shows) + "}");
  }
  return 0;
}
