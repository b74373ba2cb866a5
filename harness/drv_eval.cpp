// Evaluation of forests through caches, with tensors of numbers in GF(P).
#include "forest.hpp"
#include "leafval.hpp"
#include "record.hpp"
#include <SeQuant/core/binary_node.hpp>
#include <SeQuant/core/eval/cache_manager.hpp>
#include <SeQuant/core/eval/eval.hpp>
#include <SeQuant/core/eval/eval_expr.hpp>
#include <SeQuant/core/eval/eval_node.hpp>
#include <SeQuant/core/expressions/result_expr.hpp>
#include <SeQuant/core/optimize/optimize.hpp>
using namespace vf;

using annot_t = vector<string>;
struct ValExpr : EvalExpr {
  annot_t a;
  explicit ValExpr(EvalExpr e) : EvalExpr(std::move(e)) { for (auto& i : canon_indices()) a.push_back(show_index(i)); }
  const annot_t& annot() const { return a; }
};
using Node = EvalNode<ValExpr>;

struct Table { vector<int> dims; vector<Z> data; friend auto operator<=>(const Table&, const Table&) = default; };
struct Counters { int prod = 0, sum = 0, adj = 0, leaf = 0; } counters;

// cases that take too long are left out
struct TooBig : std::exception {};
size_t work = 0;
bool too_big = false;
void spend(size_t n) { if ((work += n) > 400000) { too_big = true; throw TooBig(); } }

size_t volume(const vector<int>& d) { size_t n = 1; for (int x : d) n *= x; return n; }
// for all values of the named modes
template <class F> void each(const vector<int>& dims, F f) {
  vector<int> at(dims.size(), 0);
  for (size_t n = volume(dims), k = 0; k < n; ++k) {
    f(at);
    for (size_t q = dims.size(); q-- > 0;) { if (++at[q] < dims[q]) break; at[q] = 0; }
  }
}
size_t offset(const vector<int>& dims, const vector<int>& at) { size_t o = 0; for (size_t q = 0; q < dims.size(); ++q) o = o * dims[q] + at[q]; return o; }
Table einsum(const vector<std::pair<const Table*, const annot_t*>>& in, const annot_t& out) {
  vector<string> names;
  vector<int> dims;
  auto pos = [&](const string& s) -> int { for (size_t k = 0; k < names.size(); ++k) if (names[k] == s) return int(k); return -1; };
  vector<vector<int>> where;
  for (auto& [t, a] : in) {
    if (t->dims.size() != a->size()) throw std::logic_error("annotation does not fit the tensor");
    where.emplace_back();
    for (size_t k = 0; k < a->size(); ++k) {
      int p = pos((*a)[k]);
      if (p < 0) { p = int(names.size()); names.push_back((*a)[k]); dims.push_back(t->dims[k]); }
      else if (dims[p] != t->dims[k]) throw std::logic_error("extents of " + (*a)[k] + " differ");
      where.back().push_back(p);
    }
  }
  spend(volume(dims));
  Table r;
  vector<int> to;
  for (auto& s : out) { int p = pos(s); if (p < 0) throw std::logic_error("the result has an index of no operand: " + s); to.push_back(p); r.dims.push_back(dims[p]); }
  r.data.resize(volume(r.dims));
  each(dims, [&](const vector<int>& at) {
    Z v(1);
    for (size_t k = 0; k < in.size(); ++k) { size_t o = 0; for (size_t q = 0; q < where[k].size(); ++q) o = o * in[k].first->dims[q] + at[where[k][q]]; v = v * in[k].first->data[o]; }
    size_t o = 0;
    for (size_t q = 0; q < to.size(); ++q) o = o * r.dims[q] + at[to[q]];
    r.data[o] += v;
  });
  return r;
}
using Scal = ResultScalar<Z>;
struct Ten final : Result {
  explicit Ten(Table t) : Result(std::move(t)) {}
  const Table& t() const { return get<Table>(); }
  static const annot_t& an(const std::any& a) { return *std::any_cast<annot_t>(&a); }
  static ResultPtr make(Table t) { return std::make_shared<Ten>(std::move(t)); }
  static Table permuted(const Table& t, const annot_t& from, const annot_t& to) {
    auto x = from, y = to;
    std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end());
    if (x != y) throw std::logic_error("not a permutation of the indices");
    return einsum({{&t, &from}}, to);
  }
  ResultPtr sum(Result const& o, std::array<std::any, 3> const& a) const override {
    ++counters.sum;
    auto x = permuted(t(), an(a[0]), an(a[2])), y = permuted(o.as<Ten>().t(), an(a[1]), an(a[2]));
    for (size_t k = 0; k < x.data.size(); ++k) x.data[k] += y.data[k];
    return make(std::move(x));
  }
  ResultPtr prod(Result const& o, std::array<std::any, 3> const& a, DeNest) const override {
    ++counters.prod;
    if (o.is<Scal>()) {
      auto x = permuted(t(), an(a[0]), an(a[2]));
      for (auto& v : x.data) v = v * o.as<Scal>().value();
      return make(std::move(x));
    }
    auto r = einsum({{&t(), &an(a[0])}, {&o.as<Ten>().t(), &an(a[1])}}, an(a[2]));
    if (an(a[2]).empty()) return eval_result<Scal>(r.data[0]);
    return make(std::move(r));
  }
  ResultPtr permute(std::array<std::any, 2> const& a) const override { return make(permuted(t(), an(a[0]), an(a[1]))); }
  ResultPtr adjoint(std::array<std::any, 2> const& a) const override {
    ++counters.adj;
    auto r = permuted(t(), an(a[0]), an(a[1]));
    for (auto& v : r.data) v = v.conj();
    return make(std::move(r));
  }
  ResultPtr slice_mode(size_t m, size_t lo, size_t hi) const override {
    Table r;
    r.dims = t().dims;
    r.dims.at(m) = int(hi - lo);
    r.data.resize(volume(r.dims));
    each(r.dims, [&](vector<int> at) { auto o = offset(r.dims, at); at[m] += int(lo); r.data[o] = t().data[offset(t().dims, at)]; });
    return make(std::move(r));
  }
  container::svector<std::pair<size_t, size_t>> mode_batches(size_t m, size_t target) const override {
    container::svector<std::pair<size_t, size_t>> r;
    size_t n = t().dims.at(m);
    for (size_t k = 0; k < n; k += target) r.emplace_back(k, std::min(n, k + target));
    return r;
  }
  void add_inplace(Result const& o) override {
    ++counters.sum;
    auto& x = get<Table>();
    auto& y = o.as<Ten>().t();
    if (x.dims != y.dims) throw std::logic_error("shapes differ");
    for (size_t k = 0; k < x.data.size(); ++k) x.data[k] += y.data[k];
  }
  ResultPtr symmetrize() const override { throw std::logic_error("symmetrize"); }
  ResultPtr antisymmetrize(size_t) const override { throw std::logic_error("antisymmetrize"); }
  ResultPtr mult_by_phase(std::int8_t f) const override { auto x = t(); for (auto& v : x.data) v = v * Z(f); return make(std::move(x)); }
  size_t size_in_bytes() const override { return t().data.size() * 8; }
  id_t type_id() const noexcept override { return id_for_type<Ten>(); }
};
Table table(const Result& r) { return r.is<Scal>() ? Table{{}, {r.as<Scal>().value()}} : r.as<Ten>().t(); }

struct World {
  Dims d;
  int version = 1;
  std::set<wstring> volatile_;
  std::map<string, ResultPtr> store;   // what the leaf evaluator hands out
  std::map<string, Table> pristine;
  int range_lo(const Index& i) const { return net_range(i, d).lo; }
  ResultPtr leaf(const Node& n) {
    ++counters.leaf;
    if (n->is_constant()) return eval_result<Scal>(leafval::scalar(n->as_constant().value()));
    if (n->is_variable()) return eval_result<Scal>(leafval::variable(n->as_variable()));
    if (!n->is_tensor()) throw std::logic_error("leaf");
    auto& t = n->as_tensor();
    bool vol = volatile_.contains(wstring(t.label()));
    string key = show(t) + "|" + (vol ? std::to_string(version) : "");
    auto& ix = n->canon_indices();
    for (auto& i : ix) key += "," + show_index(i);
    auto it = store.find(key);
    if (it != store.end()) return it->second;
    Table r;
    for (auto& i : ix) r.dims.push_back(net_range(i, d).n);
    spend(4 * volume(r.dims));
    r.data.resize(volume(r.dims));
    each(r.dims, [&](const vector<int>& at) {
      r.data[offset(r.dims, at)] = leafval::tensor(t, [&](const Index& i) -> int {
        for (size_t k = 0; k < ix.size(); ++k) if (ix[k] == i) return at[k] + 1 + range_lo(i);
        throw std::logic_error("a slot of a leaf is not among its indices");
      }, vol && version > 1 ? version : 0);
    });
    pristine[key] = r;
    return store[key] = Ten::make(std::move(r));
  }
  bool intact() const { for (auto& [k, p] : store) if (p->as<Ten>().t() != pristine.at(k)) return false; return true; }
};

template <bool collide>
void one(int c, uint64_t seed, Out& out) {
  using Cache = CacheManager<Node, collide>;
  Rng r(seed * 1000003 + c);
  work = 0;
  too_big = false;
  World w;
  w.d = {r.range(1, 2), r.range(2, 3), 3};
  bool batched = r.chance(25);
  Forest f(r, true);
  f.plain = r.chance(60);
  if (r.chance(40)) f.es.clear();
  IdxTable tab([&](const Index& i) { return net_range(i, w.d); });
  vector<std::pair<int, Range>> ext;
  vector<Index> externals;
  annot_t layout;
  for (size_t k = 0; k < f.es.size(); ++k) { Index i(Forest::elabel(f.es[k].sp, int(k))); externals.push_back(i); ext.push_back({tab(i), net_range(i, w.d)}); layout.push_back(show_index(i)); }
  vector<ExprPtr> terms;
  vector<int> block;
  for (int k = 0, n = r.range(1, 4); k < n; ++k) { terms.push_back(f.term()); block.push_back(f.last); }
  // the same intermediate as a term of its own
  if (r.chance(40)) { auto t = r.pick(terms)->clone(); if (t->is<Product>() && r.chance(50)) t->as<Product>().scale(-1); terms.push_back(t); block.push_back(-1); }
  if (r.chance(25)) { auto q = ex<Sum>(ExprPtrList{terms[0]->clone(), r.pick(terms)->clone()}); terms.push_back(ex<Product>(ExprPtrList{ex<Variable>(L"x"), q})); block.push_back(-1); }
  if (r.chance(25) && !f.es.empty()) {
    // a bare input
    vector<Index> b, k2, x;
    for (size_t q = 0; q < f.es.size(); ++q) (f.es[q].side == 0 ? b : f.es[q].side == 1 ? k2 : x).push_back(externals[q]);
    terms.insert(terms.begin(), ex<Tensor>(L"t", bra(b), ket(k2), aux(x), Symmetry::Nonsymm, BraKetSymmetry::Nonsymm, ColumnSymmetry::Nonsymm));
    block.insert(block.begin(), -1);
  }
  Record rec(tab);
  string es = "(";
  for (auto& t : terms) es += show(t) + " ; ";
  rec.start("{\"k\":\"+\",\"a\":" + jlist(terms, [&](auto& t) { return jexpr(t, tab); }) + "}", es);
  string json;
  if (!rec.run("evaluate", [&] {
        IndexSet keep(externals.begin(), externals.end());
        BinarizationOptions bo{.merge_indices = r.chance(20)};
        vector<Node> trees;
        bool heads = r.chance(30), opt = r.chance(25);
        for (auto& t : terms) {
          auto e = t->clone();
          if (opt) { e = optimize(e, OptimizeOptions{.reorder = ReorderSum::NoReorder, .idx_to_extent = [&](Index const& i) -> size_t { return net_range(i, w.d).n; }}); std::fill(block.begin(), block.end(), -1); }
          if (heads) {
            vector<Index> b, k2, x;
            for (size_t q = 0; q < f.es.size(); ++q) (f.es[q].side == 0 ? b : f.es[q].side == 1 ? k2 : x).push_back(externals[q]);
            ResultExpr re = f.es.empty() ? ResultExpr(Variable(L"R"), e) : ResultExpr(Tensor(L"R", bra(b), ket(k2), aux(x), Symmetry::Nonsymm, BraKetSymmetry::Nonsymm, ColumnSymmetry::Nonsymm), e);
            trees.push_back(binarize<ValExpr>(re, bo));
          } else {
            SEQUANT_PRAGMA_IGNORE_DEPRECATED_BEGIN
            trees.push_back(binarize<ValExpr>(e, keep, bo));
            SEQUANT_PRAGMA_IGNORE_DEPRECATED_END
          }
        }
        if (heads) std::fill(block.begin(), block.end(), -1);
        auto le = [&](const Node& n) { return w.leaf(n); };
        // the intermediates, numbered
        TreeNodeEqualityComparator<Node> eq;
        TreeNodeHasher<Node, false> hasher;
        vector<const Node*> reps, occ;
        vector<int> cls_occ;
        auto cls = [&](const Node& n) -> int {
          for (size_t k = 0; k < reps.size(); ++k) if (eq(*reps[k], n)) { if (hasher(*reps[k]) != hasher(n)) throw std::runtime_error("equal intermediates have different hash values"); return int(k) + 1; }
          reps.push_back(&n);
          return int(reps.size());
        };
        auto vol_leaf = [&](const Node& n) { return n.leaf() && n->is_tensor() && w.volatile_.contains(wstring(n->as_tensor().label())); };
        bool withper = r.chance(40);
        if (withper) { std::set<wstring> labels; for (auto& t : terms) t->visit([&](const ExprPtr& x) { if (x->is<Tensor>()) { wstring l(x->as<Tensor>().label()); if (l.back() != adjoint_label) labels.insert(l); } }, true); for (auto& l : labels) if (r.chance(30)) w.volatile_.insert(l); }
        std::function<string(const Node&)> jtree = [&](const Node& n) -> string {
          if (n.leaf()) return string("{\"k\":\"leaf\",\"c\":0,\"v\":") + (vol_leaf(n) ? "true" : "false") + "}";
          string k = n->op_type() == EvalOp::Adjoint ? "adj" : n->op_type() == EvalOp::Sum ? "+" : "*";
          int c = cls(n);
          occ.push_back(&n); cls_occ.push_back(c);
          auto l = jtree(n.left()), rr = k == "adj" ? string("0") : jtree(n.right());
          bool counted = k == "adj" || !n.left()->is_scalar() || !n.right()->is_scalar();
          return "{\"k\":\"" + k + "\",\"m\":" + (counted ? "1" : "0") + ",\"c\":" + std::to_string(c) + ",\"l\":" + l + (k == "adj" ? "" : ",\"r\":" + rr) + "}";
        };
        string jt = jlist(trees, jtree);
        // renamed copies of a block
        vector<std::pair<int, int>> same;
        std::map<int, int> of;
        for (size_t k = 0; k < trees.size(); ++k) {
          if (block[k] < 0 || trees[k].leaf()) continue;
          const Node* n = &trees[k];
          // scalar prefactor first
          if (n->right().leaf() && n->right()->is_constant()) n = &n->left();
          if (n->leaf()) continue;
          auto& b = block[k] % 2 == 0 ? n->left() : n->right();
          if (b.leaf() || b->op_type() != EvalOp::Product) continue;
          int cc = cls(b);
          auto [it, fresh] = of.try_emplace(block[k] / 2, cc);
          if (!fresh) same.push_back({it->second, cc});
        }
        // values of the intermediates, without a cache
        std::map<Table, int> ids;
        auto id = [&](const Table& t) { return ids.try_emplace(t, int(ids.size()) + 1).first->second; };
        auto canonical = [&](const Node& n) { auto v = evaluate(n, le); if (n->canon_phase() != 1) v = v->mult_by_phase(n->canon_phase()); return table(*v); };
        vector<vector<int>> ref(2), val(occ.size());
        vector<size_t> size;
        for (int v = 1; v <= 2; ++v) {
          w.version = v;
          for (auto* n : reps) { auto t = canonical(*n); ref[v - 1].push_back(id(t)); if (v == 1) size.push_back(n->operator->()->is_scalar() ? sizeof(Z) : t.data.size() * 8); }
          for (size_t k = 0; k < occ.size(); ++k) val[k].push_back(id(canonical(*occ[k])));
        }
        w.version = 1;
        // the cache
        size_t least = r.chance(75) ? 2 : size_t(r.range(1, 3));
        std::set<int> veto;
        double max_fp = 0;
        auto fp = [&](const Node& n) { double v = 1; for (auto& i : n->canon_indices()) v *= net_range(i, w.d).n; return v; };
        bool axis = false;
        if (withper) {
          if (r.chance(30)) { max_fp = r.range(2, 12); for (size_t k = 0; k < reps.size(); ++k) if (fp(*reps[k]) > max_fp) veto.insert(int(k) + 1); }
          if (r.chance(30)) { axis = true; for (size_t k = 0; k < reps.size(); ++k) for (auto& i : (*reps[k])->canon_indices()) if (i.space().base_key() == L"K") veto.insert(int(k) + 1); }
        }
        auto cache = withper ? (axis ? cache_manager<collide>(trees, vol_leaf, least, fp, max_fp, [](const Index& i) { return i.space().base_key() == L"K"; }) : cache_manager<collide>(trees, vol_leaf, least, fp, max_fp))
                             : cache_manager<collide>(trees, least);
        vector<const Node*> keys;
        vector<int> key_cls;
        cache.for_each_key([&](const Node& n) { keys.push_back(&n); });
        std::sort(keys.begin(), keys.end(), [&](auto* a, auto* b) { return cls(*a) < cls(*b); });
        for (auto* k : keys) key_cls.push_back(cls(*k));
        string reg = "[";
        for (size_t k = 0; k < keys.size(); ++k) reg += (k ? "," : "") + string("{\"c\":") + std::to_string(key_cls[k]) + ",\"max\":" + std::to_string(cache.max_life(*keys[k])) + ",\"per\":" + (cache.persistent(*keys[k]) ? "true" : "false") + "}";
        reg += "]";
        vector<int> calls;
        bool hooked = !batched && r.chance(50);
        if (hooked) cache.set_custom_evaluator([&](const Node& n, Cache&) -> ResultPtr { calls.push_back(cls(n)); return nullptr; });
        if (batched) {
          size_t target = size_t(r.range(1, 2));
          char sp = "iaK"[r.below(3)];
          bool any = r.chance(40), gate = r.chance(30);
          cache.set_custom_evaluator(make_batched_custom_evaluator(le, [target](const Index&) { return target; }, [any, sp](const Index& i) { return any || i.space().base_key()[0] == wchar_t(sp); }, make_no_scope_guard{}, vol_leaf, gate));
        }
        auto see = [&] {
          vector<int> life, data;
          auto copy = cache;  // looking at the copy does not use up the cache
          for (auto* k : keys) { life.push_back(cache.life(*k)); auto p = copy.access(*k); data.push_back(p ? id(table(*p)) : 0); if ((p != nullptr) != cache.alive(*k)) throw std::runtime_error("alive() disagrees with access()"); }
          return ",\"life\":" + jints(life) + ",\"data\":" + jints(data) + ",\"total\":" + std::to_string(cache.size_in_bytes()) + ",\"alive\":" + std::to_string(cache.alive_count()) + "}";
        };
        string ops;
        vector<int> order;
        for (size_t k = 0; k < trees.size(); ++k) order.push_back(int(k));
        vector<ResultPtr> kept;  // results handed out must not change either
        vector<Table> kept_was;
        int rounds = r.range(1, 3);
        for (int q = 0; q < rounds; ++q) {
          if (r.chance(50)) r.shuffle(order);
          size_t at = 0;
          while (at < order.size()) {
            size_t n = r.chance(50) ? 1 : r.chance(50) ? order.size() - at : size_t(r.range(1, int(order.size() - at)));
            vector<Node> some;
            vector<int> ts;
            for (size_t k = at; k < at + n; ++k) { some.push_back(trees[order[k]]); ts.push_back(order[k] + 1); }
            at += n;
            if (r.chance(20)) { some.push_back(some[0]); ts.push_back(ts[0]); }
            Cache none = Cache::empty();
            auto run = [&](Cache& ca) -> ResultPtr {
              // one layout for all, unless there is only one tree
              if (some.size() == 1 && (f.es.empty() || some.size() % 2)) return f.es.empty() ? evaluate(some[0], le, ca) : evaluate(some[0], layout, le, ca);
              return f.es.empty() ? evaluate(some, le, ca) : evaluate(some, layout, le, ca);
            };
            // terms whose results have the requested layout already are not permuted
            bool direct = !f.es.empty() && r.chance(50);
            for (auto& t : some) direct = direct && t->annot() == some[0]->annot();
            auto go = [&](Cache& ca) -> ResultPtr { return direct ? (some.size() == 1 ? evaluate(some[0], le, ca) : evaluate(some, annot_t{}, le, ca)) : run(ca); };
            auto want = id(table(*go(none)));
            counters = {};
            calls.clear();
            auto res = go(cache);
            auto cn = counters;
            auto cl = calls;
            bool ok = w.intact();
            for (size_t k = 0; k < kept.size(); ++k) ok = ok && table(*kept[k]) == kept_was[k];
            ops += (ops.empty() ? "" : ",") + string("{\"op\":\"eval\",\"ts\":") + jints(ts) + ",\"got\":" + std::to_string(id(table(*res))) + ",\"want\":" + std::to_string(want) + ",\"inputs\":" + (ok ? "true" : "false") +
                   ",\"leaf\":" + std::to_string(cn.leaf) + ",\"prod\":" + std::to_string(cn.prod) + ",\"sum\":" + std::to_string(cn.sum) + ",\"adj\":" + std::to_string(cn.adj) + ",\"acc\":" + (res->template is<Ten>() ? "1" : "0") + ",\"calls\":" + jints(cl) + see();
            if (r.chance(30)) { kept.push_back(res); kept_was.push_back(table(*res)); }
          }
          if (q + 1 < rounds && r.chance(80)) {
            cache.reset();
            if (withper) w.version = w.version == 1 ? 2 : 1;
            ops += ",{\"op\":\"reset\",\"ver\":" + std::to_string(w.version) + see();
          }
        }
        vector<int> vv(veto.begin(), veto.end());
        json = "{\"kind\":\"cache\",\"id\":" + std::to_string(c) + ",\"trees\":" + jt + ",\"least\":" + std::to_string(least) + ",\"veto\":" + jints(vv) + ",\"withper\":" + (withper ? "true" : "false") + ",\"batched\":" + (batched ? "true" : "false") +
               ",\"hooked\":" + (hooked ? "true" : "false") + ",\"reg\":" + reg + ",\"size\":" + jints(size) + ",\"ref\":" + jlist(ref, [](auto& v) { return jints(v); }) + ",\"same\":" + jlist(same, [](auto& p) { return "[" + std::to_string(p.first) + "," + std::to_string(p.second) + "]"; }) +
               ",\"occ\":" + [&] { string s = "["; for (size_t k = 0; k < occ.size(); ++k) s += (k ? "," : "") + string("{\"c\":") + std::to_string(cls_occ[k]) + ",\"val\":" + jints(val[k]) + "}"; return s + "]"; }() + ",\"ops\":[" + ops + "],\"show\":" + js(es) + "}";
        // the value of the whole, for the specification to compare with the expression
        w.version = 1;
        w.store.clear();
        ResultPtr all = f.es.empty() ? evaluate(trees, le) : evaluate(trees, layout, le);
        auto t = table(*all);
        rec.at = "value";
        // all values of the external indices
        Rng r2 = r;
        auto as = assignments(ext, r2, 3);
        (void)as;
        rec.es.push_back("@");
        rec.forms.push_back(""); rec.names.push_back("evaluate"); rec.shows.push_back("");
        auto parsed = [&] {
          vector<vector<int>> v;
          string s = as;
          vector<int> cur;
          int depth = 0, num = -1;
          for (char ch : s) {
            if (ch == '[') { ++depth; if (depth == 2) cur.clear(); }
            else if (isdigit(static_cast<unsigned char>(ch))) num = (num < 0 ? 0 : num) * 10 + (ch - '0');
            else { if (num >= 0) { cur.push_back(num); num = -1; } if (ch == ']') { if (depth == 2) v.push_back(cur); --depth; } }
          }
          return v;
        }();
        vector<int64_t> got;
        for (auto& a : parsed) { vector<int> at; for (size_t q = 0; q < a.size(); ++q) at.push_back(a[q] - 1 - ext[q].second.lo); got.push_back(t.data.at(offset(t.dims, at)).v); }
        rec.es.back() = "{\"k\":\"num\",\"v\":" + jints(got) + "}";
      })) json.clear();
  if (too_big) return;
  out.line(rec.json(std::to_string(c), ext, r));
  if (!json.empty()) out.line(json);
}

int main(int argc, char** argv) {
  if (argc < 4) return 2;
  Out out(argv[1]);
  uint64_t seed = std::strtoull(argv[2], nullptr, 10);
  int cases = std::atoi(argv[3]);
  TensorCanonicalizer::register_instance(std::make_shared<DefaultTensorCanonicalizer>());
  set_default_context({.index_space_registry_shared_ptr = net_registry(), .vacuum = Vacuum::SingleProduct, .spbasis = SPBasis::Spinor, .first_dummy_index_ordinal = 100000});
  for (int c = 0; c < cases; ++c) { if (c % 4 == 3) one<true>(c, seed, out); else one<false>(c, seed, out); }
  return 0;
}
