// The optimizer: values before and after (SameValue), and the contraction
// orders chosen (ContractionGame).
#include "record.hpp"
#include "trees.hpp"
#include "forest.hpp"
#include <SeQuant/core/binary_node.hpp>
#include <SeQuant/core/eval/eval_expr.hpp>
#include <SeQuant/core/eval/eval_node.hpp>
#include <SeQuant/core/expressions/result_expr.hpp>
#include <SeQuant/core/optimize/common_subexpression_elimination.hpp>
#include <SeQuant/core/optimize/fusion.hpp>
#include <SeQuant/core/optimize/optimize.hpp>
#include <SeQuant/core/optimize/sum.hpp>
using namespace vf;
using Node = EvalNode<EvalExpr>;

struct Opts { OptimizeOptions o; string text; };

// postfix order of the tensors (1-based position in ts), 0: contract the two on top
bool postfix(const ExprPtr& e, const vector<ExprPtr>& ts, vector<int>& out) {
  if (e->is<Tensor>()) {
    for (size_t k = 0; k < ts.size(); ++k) if (ts[k]->as<Tensor>().label() == e->as<Tensor>().label()) { out.push_back(int(k) + 1); return true; }
    return false;
  }
  if (!e->is<Product>()) return false;
  vector<ExprPtr> f;
  for (auto& x : e->as<Product>().factors()) if (!x->is_scalar() || x->is<Product>()) f.push_back(x);
  if (f.size() == 1) return postfix(f[0], ts, out);
  if (f.size() != 2) return false;
  if (!postfix(f[0], ts, out) || !postfix(f[1], ts, out)) return false;
  out.push_back(0);
  return true;
}

OptimizeOptions random_options(Rng& r, std::shared_ptr<std::map<wstring, size_t>> extents, string& text) {
  OptimizeOptions o;
  int c = int(r.below(10));
  o.objective_function = c < 5 ? ObjectiveFunction::DenseFLOPs : c < 7 ? ObjectiveFunction::DenseSize : c < 9 ? ObjectiveFunction::DensePeakSize : ObjectiveFunction::DensePeakSizeBatched;
  text = c < 5 ? "flops" : c < 7 ? "size" : c < 9 ? "peak" : "batched";
  o.reorder = r.chance(50) ? ReorderSum::Reorder : ReorderSum::NoReorder;
  o.idx_to_extent = [extents](Index const& i) -> size_t { auto it = extents->find(IdxTable::key(i)); return it == extents->end() ? 3 : it->second; };
  if (c < 7 && r.chance(40)) { o.CSE.subnet = true; text += ",subnet"; }
  if (c < 5 && r.chance(30)) { o.volatile_weight = r.range(2, 9); o.batch_policy.is_volatile_leaf = [](Tensor const& t) { return t.label() == L"t"; }; text += ",volatile"; }
  if (c < 5 && r.chance(30)) { o.footprint_weight = r.range(1, 4); text += ",footprint"; }
  if (c == 9) {
    o.batch_policy.is_batchable_index = [](Index const& i) { return i.space().base_key() == L"K"; };
    o.batch_policy.batch_target_size = [](Index const&) { return size_t(2); };
  }
  o.prune_outer_products = !r.chance(40);
  if (!o.prune_outer_products) text += ",unpruned";
  return o;
}

int main(int argc, char** argv) {
  if (argc < 4) return 2;
  Out out(argv[1]);
  uint64_t seed = std::strtoull(argv[2], nullptr, 10);
  int cases = std::atoi(argv[3]), maxn = argc > 4 ? std::atoi(argv[4]) : 5;
  TensorCanonicalizer::register_instance(std::make_shared<DefaultTensorCanonicalizer>());
  set_default_context({.index_space_registry_shared_ptr = net_registry(), .vacuum = Vacuum::SingleProduct, .spbasis = SPBasis::Spinor, .first_dummy_index_ordinal = 100000});
  vector<std::pair<int, Range>> ext;
  for (int c = 0; c < cases; ++c) {
    Rng r(seed * 1000003 + c);
    definitions().clear();
    ext.clear();
    int kind = c % 8;
    if (kind < 3) {
      // orders: tensors with labels of their own, so that the leaves of the result can be told apart
      NetOptions no;
      no.max_tensors = maxn; no.hyper = true; no.protos = r.chance(25); no.max_ext = 4;
      Net n;
      for (int tries = 0; tries < 60; ++tries) {
        n = random_net(r, no);
        if (int(n.t.size()) >= 3 && n.idx.size() <= 9) break;
      }
      bool fixed = c == 0 && seed % 100 == 0;  // known: an outer product first is cheaper
      if (fixed) {
        n = Net{};
        auto ten = [&](wstring l, string b, string k, vector<int> bi, vector<int> ki) { NTen t; t.sig.label = l; t.sig.sym = Symmetry::Nonsymm; t.sig.bk = BraKetSymmetry::Nonsymm; t.sig.cs = ColumnSymmetry::Symm; t.sig.bra = b; t.sig.ket = k; t.bra = bi; t.ket = ki; n.t.push_back(t); };
        n.idx = {{'i', false, 1, {}}, {'i', false, 2, {}}, {'a', true, 1, {}}};
        ten(L"A", "i", "", {0}, {}); ten(L"B", "i", "", {1}, {}); ten(L"C", "a", "ii", {2}, {0, 1});
      }
      if (n.t.size() < 2 || n.idx.size() > 12) continue;
      for (size_t k = 0; k < n.t.size(); ++k) {
        n.t[k].sig.label = wstring(1, wchar_t(L'A' + k));
        if (r.chance(30)) n.t[k].sig.label = L"t" + std::to_wstring(k);
      }
      auto pres = identity(n);
      auto e = net_expr(n, pres);
      auto extents = std::make_shared<std::map<wstring, size_t>>();
      vector<ExprPtr> ts;
      for (auto& f : *e) if (f->is<Tensor>()) ts.push_back(f);
      Dims d{2, 2, 2};
      IdxTable tab([&](const Index& i) { return net_range(i, d); });
      Record rec(tab);
      rec.start(e);
      vector<int> sizes(n.idx.size());
      double total = 1e18;
      for (int most = 9; total > 3e6; --most) { total = 1; for (auto& s : sizes) { s = r.range(2, std::max(2, most)); total *= s; } if (most < 2) break; }
      if (fixed) sizes = {2, 2, 10};
      vector<string> prs;
      vector<int> ids;
      for (size_t k = 0; k < n.idx.size(); ++k) {
        auto i = net_index(n, pres, int(k));
        (*extents)[IdxTable::key(i)] = sizes[k];
        ids.push_back(tab(i));
        if (n.idx[k].ext) ext.push_back({tab(i), net_range(i, d)});
      }
      vector<int> sz(tab.rows.size(), 1);
      for (size_t k = 0; k < ids.size(); ++k) sz[ids[k] - 1] = sizes[k];
      int nvar = r.chance(30) ? 1 : 0;
      if (nvar) e = ex<Variable>(L"x") * e;
      rec.start(e);
      OptimizeOptions o;
      string text;
      int w = 1, fw = 0, tol = 0;
      string model;
      auto vol = [](Tensor const& t) { return t.label().starts_with(L't'); };
      int m = fixed ? 0 : int(r.below(10));
      if (m < 5) { model = "flops"; o.objective_function = ObjectiveFunction::DenseFLOPs; if (!fixed && r.chance(40)) w = r.range(2, 6); if (!fixed && r.chance(30)) fw = r.range(1, 5); }
      else if (m < 7) { model = "size"; o.objective_function = ObjectiveFunction::DenseSize; }
      else { model = "peak"; o.objective_function = ObjectiveFunction::DensePeakSize; if (r.chance(50)) w = r.range(2, 6); tol = r.chance(50) ? 0 : 10; o.peak_flops_tolerance = tol / 100.; }
      o.volatile_weight = w; o.footprint_weight = fw;
      if (w > 1) o.batch_policy.is_volatile_leaf = vol;
      o.idx_to_extent = [extents](Index const& i) { return extents->at(IdxTable::key(i)); };
      o.prune_outer_products = fixed || r.chance(50);
      ExprPtr best;
      rec.run("optimize", [&] { best = optimize(e, o); rec.add("optimize for " + model, best); });
      out.line(rec.json(std::to_string(c), ext, r));
      vector<int> post;
      if (best && postfix(best, ts, post)) {
        vector<int> volat;
        auto leaf = [&](const ExprPtr& t) { vector<int> v; for (auto& i : t->as<Tensor>().const_slots()) if (i.nonnull()) v.push_back(tab(i)); return jints(v); };
        for (size_t k = 0; k < ts.size(); ++k) if (w > 1 && vol(ts[k]->as<Tensor>())) volat.push_back(int(k) + 1);
        out.line("{\"kind\":\"cost\",\"id\":" + std::to_string(c) + ",\"known\":" + (fixed ? "true" : "false") + ",\"t\":" + jlist(ts, leaf) + ",\"idx\":" + tab.json() + ",\"sz\":" + jints(sz) + ",\"model\":" + js(model) + ",\"w\":" + std::to_string(w) +
                 ",\"fw\":" + std::to_string(fw) + ",\"vol\":" + jints(volat) + ",\"tol\":" + std::to_string(tol) + ",\"prune\":" + (o.prune_outer_products && !fixed ? "true" : "false") + ",\"post\":" + jints(post) + ",\"show\":" + js(show(e)) + ",\"res\":" + js(show(best)) + "}");
      } else if (best) out.line("{\"kind\":\"cost\",\"id\":" + std::to_string(c) + ",\"noseq\":" + js(show(e) + " -> " + show(best)) + "}");
      continue;
    }
    if (kind < 6) {
      // any expression
      Dims d{2, 2, 2};
      IdxTable tab([&](const Index& i) { return net_range(i, d); });
      Record rec(tab);
      auto extents = std::make_shared<std::map<wstring, size_t>>();
      ExprPtr e;
      if (kind < 5) {
        Gen g(r);
        vector<Open> open;
        if (c == 3 && seed % 100 == 0) {
          // known: orientation of a tensor that allows exchanging bra and ket
          open = {{L"i_1", 0}};
          auto t = [](const wchar_t* l, BraKetSymmetry bk) { return ex<Tensor>(l, bra{Index(L"i_1")}, ket{Index(L"a_2"), Index(L"a_3")}, aux{}, Symmetry::Nonsymm, bk, ColumnSymmetry::Symm); };
          auto q = std::make_shared<Product>();
          q->append(1, ex<Sum>(ExprPtrList{t(L"h", BraKetSymmetry::Symm), t(L"t", BraKetSymmetry::Nonsymm)}), Product::Flatten::No);
          q->append(1, ex<Tensor>(L"t", bra{Index(L"a_2"), Index(L"a_3")}, ket{}, aux{}, Symmetry::Nonsymm, BraKetSymmetry::Nonsymm, ColumnSymmetry::Symm));
          e = q;
        } else {
        int no = int(r.below(4));
        for (int k = 0; k < no; ++k) open.push_back(g.fresh(r.chance(10) ? 2 : int(r.below(2))));
        g.flippable = r.chance(50);
        e = g.tree(open, r.range(1, 3), 0);
        // an intermediate that is a sum takes the orientation of its first summand
        if (g.flippable) expand(e);
        }
        if (r.chance(40)) flatten(e);
        for (auto& o : open) { Index i(o.label); ext.push_back({tab(i), net_range(i, d)}); }
      } else {
        // with repeated tensors and proto-indices
        NetOptions no;
        no.max_tensors = 5; no.hyper = true; no.protos = r.chance(50); no.traces = r.chance(20);
        Net n = random_net(r, no);
        auto p = identity(n);
        e = net_expr(n, p);
        d = choose_dims(n, r);
        for (size_t k = 0; k < n.idx.size(); ++k) if (n.idx[k].ext) { auto i = net_index(n, p, int(k)); ext.push_back({tab(i), net_range(i, d)}); }
        if (r.chance(30)) e = ex<Variable>(L"x") * e;
        if (r.chance(30)) e = ex<Variable>(L"x") * e;
      }
      rec.start(e);
      for (int k = 1; k < 30; ++k) for (wchar_t s : {L'i', L'a', L'K'}) (*extents)[IdxTable::key(Index(wstring(1, s) + L"_" + std::to_wstring(k)))] = r.range(2, 9);
      for (int k = 0; k < 3; ++k) {
        string text;
        auto o = random_options(r, extents, text);
        rec.run("optimize for " + text, [&] { auto q = optimize(e->clone(), o); rec.add("optimize for " + text, q); });
      }
      if (e->is<Sum>() && e->size() > 0) rec.run("reorder", [&] { rec.add("reorder", ex<Sum>(opt::reorder(e->as<Sum>()))); });
      if (!ext.empty()) rec.run("binarize", [&] {
        container::svector<Index> x;
        IndexSet set;
        for (auto& [id, rg] : ext) (void)id;
        SEQUANT_PRAGMA_IGNORE_DEPRECATED_BEGIN
        auto node = binarize(e);
        SEQUANT_PRAGMA_IGNORE_DEPRECATED_END
        rec.add("binarize, to_expr", to_expr(node));
      });
      out.line(rec.json(std::to_string(c), ext, r));
      continue;
    }
    if (kind == 6) {
      // two products with common factors, left or right
      Dims d{2, 2, 2};
      IdxTable tab([&](const Index& i) { return net_range(i, d); });
      Record rec(tab);
      Gen g(r);
      g.complex = false;  // the common factor of complex scalars is not supported
      vector<Open> open, share;
      for (int k = 0, m = int(r.below(3)); k < m; ++k) open.push_back(g.fresh(int(r.below(2))));
      vector<Open> cf, rest;
      for (auto& o : open) (r.chance(50) ? cf : rest).push_back(o);
      for (int k = 0, m = r.range(0, 2); k < m; ++k) { auto o = g.fresh(0); cf.push_back(o); o.side = 1; rest.push_back(o); }
      auto chain = [&](vector<Open> op, int n, int least) {
        vector<vector<Open>> part(n);
        for (auto& o : op) part[r.below(n)].push_back(o);
        for (int q = 0; q + 1 < n; ++q) if (r.chance(60)) { auto o = g.fresh(0); part[q].push_back(o); o.side = 1; part[q + 1].push_back(o); }
        vector<ExprPtr> v;
        for (auto& p : part) v.push_back(r.chance(85) || !p.empty() ? g.leaf(p, 0) : ex<Variable>(L"x"));
        (void)least;
        return v;
      };
      auto common = chain(cf, r.range(1, 3), 1);
      bool left = r.chance(50);
      static const rational nums[] = {rational(1), rational(1, 2), rational(-1, 2), rational(1, 4), rational(-2), rational(3), rational(-3, 4), rational(5, 6)};
      auto make = [&] {
        auto own = chain(rest, r.range(1, 3), 0);
        if (rest.empty() && r.chance(15)) own.clear();
        auto p = std::make_shared<Product>();
        if (left) { for (auto& x : common) p->append(1, x->clone(), Product::Flatten::No); for (auto& x : own) p->append(1, x, Product::Flatten::No); }
        else { for (auto& x : own) p->append(1, x, Product::Flatten::No); for (auto& x : common) p->append(1, x->clone(), Product::Flatten::No); }
        p->scale(nums[r.below(8)]);
        return ExprPtr(p);
      };
      auto a = make(), b = make();
      for (auto& o : open) { Index i(o.label); ext.push_back({tab(i), net_range(i, d)}); }
      auto s = std::make_shared<Sum>();
      rec.start("{\"k\":\"+\",\"a\":[" + jexpr(a, tab) + "," + jexpr(b, tab) + "]}", show(a) + " + " + show(b));
      rec.run("Fusion", [&] {
        opt::Fusion f{a->as<Product>(), b->as<Product>()};
        if (f.left()) rec.add("fusion from the left", f.left());
        if (f.right()) rec.add("fusion from the right", f.right());
        if (left && !f.left() && a->as<Product>().factor(0) == b->as<Product>().factor(0)) throw std::runtime_error("products with a common left factor were not fused");
      });
      out.line(rec.json(std::to_string(c), ext, r));
      continue;
    }
    // common subexpressions
    Forest forest(r);
    auto& es = forest.es;
    auto elabel = Forest::elabel;
    Dims d{2, 2, 2};
    IdxTable tab([&](const Index& i) { return net_range(i, d); });
    auto term = [&] { return forest.term(); };
    int nres = r.range(1, 2);
    vector<ResultExpr> res;
    bool opt_first = r.chance(30);
    for (int q = 0; q < nres; ++q) {
      Sum::summands_type v;
      for (int k = 0, m = r.range(1, 3); k < m; ++k) v.push_back(term());
      ExprPtr e = v.size() == 1 ? v[0] : ex<Sum>(v.begin(), v.end());
      vector<Index> b, k, x;
      for (size_t w = 0; w < es.size(); ++w) (es[w].side == 0 ? b : es[w].side == 1 ? k : x).push_back(Index(elabel(es[w].sp, int(w))));
      wstring lab = L"R" + std::to_wstring(q + 1);
      if (es.empty()) res.emplace_back(Variable(lab), e);
      else res.emplace_back(Tensor(lab, bra(b), ket(k), aux(x), Symmetry::Nonsymm, BraKetSymmetry::Nonsymm, ColumnSymmetry::Nonsymm), e);
    }
    if (r.chance(25) && nres == 2) {
      // the second result uses the first
      auto& a = res[0];
      auto u = std::make_shared<Product>();
      u->append(1, a.has_label() && !es.empty() ? ex<Tensor>(a.result_as_tensor()) : ex<Variable>(a.result_as_variable()));
      u->append(1, ex<Variable>(L"y"));
      res[1].expression() = ex<Sum>(ExprPtrList{u, res[1].expression()});
    }
    for (size_t w = 0; w < es.size(); ++w) { Index i(elabel(es[w].sp, int(w))); ext.push_back({tab(i), net_range(i, d)}); }
    vector<Record> recs;
    vector<ExprPtr> before;
    auto formals = [](const Expr& head) { vector<Index> v; if (head.is<Tensor>()) for (auto& i : head.as<Tensor>().const_slots()) v.push_back(i); return v; };
    auto head = [&](const ResultExpr& a) -> ExprPtr { return es.empty() ? ex<Variable>(a.result_as_variable()) : ex<Tensor>(a.result_as_tensor()); };
    bool ok = true;
    for (auto& a : res) {
      Record rec(tab);
      rec.start(a.expression());
      recs.push_back(std::move(rec));
      definitions()[wstring(a.label())] = {formals(*head(a)), a.expression()->clone()};
    }
    definitions().clear();
    string what;
    vector<ExprPtr> after(res.size());
    string text;
    std::map<wstring, Definition> input;
    for (auto& a : res) input[wstring(a.label())] = {formals(*head(a)), a.expression()->clone()};
    // what goes in: the second result sees the first as defined
    definitions() = {{wstring(res[0].label()), input.at(wstring(res[0].label()))}};
    for (size_t q = 0; q < res.size(); ++q) { auto e = res[q].expression(); if (q == 0) { auto keep = definitions(); definitions().clear(); recs[q].start(e); definitions() = keep; } else recs[q].start(e); }
    definitions().clear();
    recs[0].run("eliminate_common_subexpressions", [&] {
      if (opt_first) for (auto& a : res) a.expression() = optimize(a.expression(), OptimizeOptions{.reorder = ReorderSum::NoReorder});
      vector<Node> trees;
      bool merge = r.chance(30);
      auto tree = [merge](const auto& x) { 
        SEQUANT_PRAGMA_IGNORE_DEPRECATED_BEGIN
        if constexpr (std::is_same_v<std::decay_t<decltype(x)>, ResultExpr>) return binarize(x, BinarizationOptions{.merge_indices = merge});
        else return binarize(x, IndexSet{}, BinarizationOptions{.merge_indices = merge});
        SEQUANT_PRAGMA_IGNORE_DEPRECATED_END
      };
      for (auto& a : res) trees.push_back(tree(a));
      if (r.chance(30)) opt::eliminate_common_subexpressions<decltype(trees), decltype(tree), true>(trees, tree);
      else opt::eliminate_common_subexpressions(trees, tree);
      for (auto& t : trees) {
        auto h = t->expr();
        wstring l(h->is<Tensor>() ? h->as<Tensor>().label() : h->as<Variable>().label());
        auto body = to_expr(t);
        text += u8(l) + " := " + show(body) + "; ";
        size_t q = 0;
        while (q < res.size() && res[q].label() != l) ++q;
        if (q < res.size()) {
          auto js_ = jexpr(body, tab);
          recs[q].add("eliminate_common_subexpressions", js_, text);
        }
        definitions()[l] = {formals(*h), body};
      }
    });
    definitions().clear();
    if (!recs[0].err.empty()) { out.line(recs[0].json(std::to_string(c), ext, r)); continue; }
    for (auto& rec : recs) {
      if (rec.es.size() < 2) rec.err = "no result: " + text;
      out.line(rec.json(std::to_string(c), ext, r));
    }
  }
  return 0;
}
