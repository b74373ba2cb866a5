// Exports random expressions.  A generator that records what it is told to do
// yields a program for the machine in Program.tla; the generators of program
// texts yield texts, which the check parses.
#include "record.hpp"
#include "trees.hpp"
#include <SeQuant/core/io/shorthands.hpp>
#include <SeQuant/core/export/export.hpp>
#include <SeQuant/core/export/generation_optimizer.hpp>
#include <SeQuant/core/export/itf.hpp>
#include <SeQuant/core/export/julia_itensor.hpp>
#include <SeQuant/core/export/julia_tensor_kit.hpp>
#include <SeQuant/core/export/julia_tensor_operations.hpp>
#include <SeQuant/core/export/python_einsum.hpp>
#include <SeQuant/core/export/reordering_context.hpp>
#include <SeQuant/core/export/text_generator.hpp>
#include <SeQuant/core/expressions/result_expr.hpp>
#include <SeQuant/core/utility/expr.hpp>
using namespace vf;

// indices, objects and statements of one program
struct Book {
  IdxTable tab;
  std::map<string, int> objs;
  vector<string> rows, st, text;
  std::function<bool(const Index&)> batched = [](const Index&) { return false; };
  explicit Book(std::function<Range(const Index&)> r) : tab(std::move(r)) {}
  template <class R> vector<int> ids(R&& r) { vector<int> v; for (auto&& i : r) v.push_back(tab(i)); return v; }
  // an object is the block of a tensor (name and spaces), or a scalar
  int block(const string& name, const vector<Index>& slots) {
    string k = name + "|", fam = k;
    for (auto& i : slots) fam += u8(i.space().base_key()) + ",";
    for (auto& i : slots) k += u8(i.space().base_key()) + (batched(i) ? "!" + u8(i.label()) : "") + ",";
    auto [it, fresh] = objs.emplace(k, int(objs.size()) + 1);
    if (fresh) rows.push_back("{\"nm\":" + js(k) + ",\"fam\":" + js(fam) + ",\"kind\":\"tensor\",\"d\":" + jlist(slots, [&](auto& i) { auto r = tab.range(i); return "{\"lo\":" + std::to_string(r.lo) + ",\"n\":" + std::to_string(r.n) + "}"; }) + "}");
    return it->second;
  }
  int scalar(const string& name) {
    auto [it, fresh] = objs.emplace(name, int(objs.size()) + 1);
    if (fresh) rows.push_back("{\"nm\":" + js(name) + ",\"fam\":" + js(name) + ",\"kind\":\"scalar\",\"d\":[]}");
    return it->second;
  }
  static vector<Index> slots(const Tensor& t) { vector<Index> v; for (auto& i : t.const_indices()) v.push_back(i); return v; }
  int operator()(const Tensor& t) { return block(u8(t.label()), slots(t)); }
  int operator()(const Variable& v) { return scalar(u8(v.label())); }
  string where(const Tensor& t) { return "\"o\":" + std::to_string((*this)(t)) + ",\"sl\":" + jints(ids(slots(t))); }
  string where(const Variable& v) { return "\"o\":" + std::to_string((*this)(v)) + ",\"sl\":[]"; }
  string expr(const Expr& e) {
    if (e.is<Tensor>()) return "{\"k\":\"tab\"," + where(e.as<Tensor>()) + "}";
    if (e.is<Variable>()) return "{\"k\":\"tab\"," + where(e.as<Variable>()) + "}";
    if (e.is<Product>()) return "{\"k\":\"p\",\"s\":" + jscalar(e.as<Product>().scalar()) + ",\"a\":" + jlist(e.as<Product>().factors(), [&](auto& f) { return expr(*f); }) + "}";
    if (e.is<Sum>()) return "{\"k\":\"+\",\"a\":" + jlist(e.as<Sum>().summands(), [&](auto& f) { return expr(*f); }) + "}";
    if (e.is<Power>() && e.as<Power>().base()->is<Variable>()) {
      auto& p = e.as<Power>();
      return "{\"k\":\"^\",\"b\":" + expr(*p.base()) + ",\"n\":" + std::to_string(long(static_cast<long long>(numerator(p.exponent())))) + ",\"d\":" + std::to_string(long(static_cast<long long>(denominator(p.exponent())))) + ",\"cj\":false}";
    }
    return jexpr(e, tab);
  }
};

struct Traits {
  DeclarationScope idx = DeclarationScope::Global, var = DeclarationScope::Global, ten = DeclarationScope::Global;
  PrunableScalars prune = PrunableScalars::All;
  bool sections = true, required = false, batching = false;
};

template <class C>
class Recorder : public Generator<C> {
  Book* b;
  Traits t;
  void say(const string& op, const string& rest, const string& text) {
    b->st.push_back("{\"op\":" + js(op) + rest + "}");
    b->text.push_back(op + " " + text);
  }
  template <class O> void object(const string& op, const O& o, bool z = false) { say(op, "," + b->where(o) + ",\"z\":" + (z ? "true" : "false"), show(o) + (z ? " := 0" : "")); }
 public:
  using Context = C;
  Recorder(Book* b, Traits t) : b(b), t(t) {}
  string get_format_name() const override { return "record"; }
  bool supports_named_sections() const override { return t.sections; }
  bool requires_named_sections() const override { return t.required; }
  bool supports_index_batching() const override { return t.batching; }
  DeclarationScope index_declaration_scope() const override { return t.idx; }
  DeclarationScope variable_declaration_scope() const override { return t.var; }
  DeclarationScope tensor_declaration_scope() const override { return t.ten; }
  PrunableScalars prunable_scalars() const override { return t.prune; }
  string represent(const Index& i, const C&) const override { return u8(i.label()); }
  string represent(const Tensor& i, const C&) const override { return show(i); }
  string represent(const Variable& i, const C&) const override { return show(i); }
  string represent(const Constant& i, const C&) const override { return show(i); }
  string represent(const Power& i, const C&) const override { return show(i); }
  void create(const Tensor& x, bool z, const C&) override { object("create", x, z); }
  void create(const Variable& x, bool z, const C&) override { object("create", x, z); }
  void load(const Tensor& x, bool z, const C&) override { object("load", x, z); }
  void load(const Variable& x, bool z, const C&) override { object("load", x, z); }
  void set_to_zero(const Tensor& x, const C&) override { object("zero", x); }
  void set_to_zero(const Variable& x, const C&) override { object("zero", x); }
  void unload(const Tensor& x, const C&) override { object("unload", x); }
  void unload(const Variable& x, const C&) override { object("unload", x); }
  void destroy(const Tensor& x, const C&) override { object("destroy", x); }
  void destroy(const Variable& x, const C&) override { object("destroy", x); }
  void persist(const Tensor& x, const C&) override { object("persist", x); }
  void persist(const Variable& x, const C&) override { object("persist", x); }
  void compute(const Expr& e, const Tensor& x, const C&) override { say("compute", "," + b->where(x) + ",\"e\":" + b->expr(e), show(x) + " += " + show(e)); }
  void compute(const Expr& e, const Variable& x, const C&) override { say("compute", "," + b->where(x) + ",\"e\":" + b->expr(e), show(x) + " += " + show(e)); }
  void declare(const Index& i, const C&) override { say("index", ",\"i\":" + std::to_string(b->tab(i)), show_index(i)); }
  void declare(const Variable& x, UsageSet, const C&) override { object("declare", x); }
  void declare(const Tensor& x, UsageSet, const C&) override { object("declare", x); }
  void all_indices_declared(size_t, const C&) override {}
  void all_variables_declared(size_t, const C&) override {}
  void all_tensors_declared(size_t, const C&) override {}
  void begin_declarations(DeclarationScope s, const C&) override {
    auto q = [&](DeclarationScope m) { return m == s ? "true" : "false"; };
    say("declare+", string(",\"forget\":{\"index\":") + q(t.idx) + ",\"tensor\":" + q(t.ten) + ",\"scalar\":" + q(t.var) + "}", std::to_string(int(s)));
  }
  void end_declarations(DeclarationScope, const C&) override { say("declare-", "", ""); }
  void insert_comment(const string&, const C&) override {}
  void begin_named_section(std::string_view n, const C&) override { say("section+", "", string(n)); }
  void end_named_section(std::string_view n, const C&) override { say("section-", "", string(n)); }
  void begin_expression(const C&) override { say("expr+", "", ""); }
  void end_expression(const C&) override { say("expr-", "", ""); }
  void begin_export(const C&) override {}
  void end_export(const C&) override {}
  string get_generated_code() const override { return ""; }
};

void leaves(const ExprPtr& e, vector<ExprPtr>& v) {
  if (e->is<Tensor>() || e->is<Variable>()) v.push_back(e);
  else if (e->is<Power>()) { if (e->as<Power>().base()->is<Variable>()) v.push_back(e->as<Power>().base()); }
  else if (e->is<Product>() || e->is<Sum>()) for (auto& x : *e) leaves(x, v);
}


struct Job { ExprPtr e; vector<Open> open; wstring label; vector<Index> slots[3]; ExprPtr result; };

// what one case has in it
struct Case {
  Rng& r;
  Book& b;
  string kind;
  vector<Job>& jobs;
  vector<int> group;       // which group each expression is in
  vector<string> names;    // of the groups; empty: no name
  Index batch;
  bool retain = false, bare = false;
  int accumulate = 0;      // 1: the result is loaded and added to, 2: loaded and set to zero
  string err, code, inputs, want, trees;

  template <class C, class G> void run(C ctx, G& gen, std::function<string(const Expr&, const C&)> name) {
    if (batch.nonnull())
      if constexpr (std::is_base_of_v<ItfContext, C>) ctx.set_batch_indices({batch});
    vector<ExportNode<ExportExpr>> ts;
    vector<string> in, wa;
    for (auto& j : jobs) trees += show(j.result) + " = " + show(j.e) + "\n";
    err = guarded([&] {
      for (auto& j : jobs) {
        if (bare) ts.push_back(to_export_tree(j.e->clone(), retain));
        else if (j.result->is<Tensor>()) ts.push_back(to_export_tree(ResultExpr(j.result->as<Tensor>(), j.e->clone()), retain));
        else ts.push_back(to_export_tree(ResultExpr(j.result->as<Variable>(), j.e->clone()), retain));
      }
    });
    if (!err.empty()) { err = "to_export_tree: " + err; return; }
    for (auto& t : ts) if (!t->expr()->is<Tensor>() && !t->expr()->is<Variable>()) { err = "limit: the expression is a constant"; return; }
    for (auto& t : ts) if (t.leaf()) { err = "limit: there is nothing to compute"; return; }
    auto place = [&](const ExprPtr& x, string& nm) {
      if (x->is<Tensor>()) { Tensor t = x->as<Tensor>(); static_cast<const ExportContext&>(ctx).rewrite(t); nm = name(t, ctx); return b.where(t); }
      Variable v = x->as<Variable>(); static_cast<const ExportContext&>(ctx).rewrite(v); nm = name(v, ctx); return b.where(v);
    };
    std::set<string> seen;
    auto input = [&](const ExprPtr& x, const ExprPtr& value) {
      string nm, w = place(x, nm), v = jexpr(value, b.tab);
      string line = "{\"nm\":" + js(nm) + "," + w + ",\"e\":" + v + ",\"show\":" + js(show(x)) + "}";
      if (seen.insert(line).second) in.push_back(line);
    };
    for (size_t k = 0; k < jobs.size(); ++k) {
      auto& j = jobs[k];
      // every terminal of the tree, in the spelling it has there
      ts[k].visit([&](auto& node) {
        if (!node.leaf()) return;
        vector<ExprPtr> ls;
        leaves(node->expr(), ls);
        for (auto& x : ls) {
          bool earlier = false;
          for (size_t q = 0; q < k; ++q) earlier |= (x->is<Tensor>() ? x->as<Tensor>().label() : x->as<Variable>().label()) == jobs[q].label;
          if (!earlier) input(x, x);
        }
      });
      if (bare) j.result = ts[k]->expr()->clone();
      ExprPtr start;
      string value = jexpr(j.e, b.tab);
      if (accumulate) {
        start = j.result->is<Tensor>() ? ex<Tensor>(L"Start", j.result->as<Tensor>().bra(), j.result->as<Tensor>().ket(), j.result->as<Tensor>().aux()) : ex<Variable>(L"Start");
        input(j.result, start);
        if (accumulate == 1) value = "{\"k\":\"+\",\"a\":[" + jexpr(start, b.tab) + "," + value + "]}";
        if (j.result->is<Tensor>()) ctx.setLoadStrategy(j.result->as<Tensor>(), LoadStrategy::Load); else ctx.setLoadStrategy(j.result->as<Variable>(), LoadStrategy::Load);
        if (accumulate == 2) { if (j.result->is<Tensor>()) ctx.setZeroStrategy(j.result->as<Tensor>(), ZeroStrategy::AlwaysZero); else ctx.setZeroStrategy(j.result->as<Variable>(), ZeroStrategy::AlwaysZero); }
      }
      string nm, w = place(ts[k]->expr(), nm);
      wa.push_back("{\"nm\":" + js(nm) + "," + w + ",\"e\":" + value + ",\"show\":" + js(show(j.result) + " = " + show(j.e)) + "}");
      Definition def;
      if (j.result->is<Tensor>()) for (auto& i : j.result->as<Tensor>().const_slots()) def.formals.push_back(i);
      def.body = j.e;
      definitions()[j.label] = def;
    }
    inputs = jlist(in, [](auto& s) { return s; });
    want = jlist(wa, [](auto& s) { return s; });
    container::svector<ExpressionGroup<ExportExpr>> gs;
    for (size_t q = 0; q < names.size(); ++q) {
      container::svector<ExportNode<ExportExpr>> mine;
      for (size_t k = 0; k < jobs.size(); ++k) if (group[k] == int(q)) mine.push_back(std::move(ts[k]));
      gs.push_back(names[q].empty() ? ExpressionGroup<ExportExpr>(std::move(mine)) : ExpressionGroup<ExportExpr>(std::move(mine), names[q]));
    }
    err = guarded([&] { export_groups<ExportExpr>(gs, gen, ctx); });
    if (!err.empty()) err = "export: " + err;
    code = gen.get_generated_code();
  }
};

int main(int argc, char** argv) {
  if (argc < 4) return 2;
  Out out(argv[1]);
  uint64_t seed = strtoull(argv[2], nullptr, 10);
  int count = atoi(argv[3]), only = argc > 4 ? atoi(argv[4]) : -1;
  set_num_threads(1);
  TensorCanonicalizer::register_instance(std::make_shared<DefaultTensorCanonicalizer>());
  static const char* kinds[] = {"record", "record", "record", "optimized", "text", "numpy", "torch", "julia", "tensorkit", "itensor", "itf", "itf"};
  for (int c = 0; c < count; ++c) {
    if (only >= 0 && c != only) continue;
    Rng r(seed * 1000003 + c);
    string kind = kinds[r.below(12)];
    bool itf = kind == "itf", rec = kind == "record" || kind == "optimized", julia = kind == "julia" || kind == "tensorkit" || kind == "itensor";
    // the sizes of the spaces decide about the order of slots
    vector<unsigned long> z{10, 20, 30};
    if (r.chance(20)) z[r.below(3)] = 20;
    r.shuffle(z);
    auto isr = std::make_shared<IndexSpaceRegistry>();
    isr->add(L"i", 0b001, is_vacuum_occupied, is_reference_occupied, is_hole, z[0]).add(L"a", 0b010, is_particle, z[1]).add_union(L"p", {L"i", L"a"}, is_complete).add(L"K", 0b100, z[2]);
    set_default_context({.index_space_registry_shared_ptr = isr, .vacuum = Vacuum::SingleProduct, .assert_strict_braket_symmetry = false, .first_dummy_index_ordinal = 100});
    definitions().clear();
    Dims d{r.range(1, 2), r.range(1, 2), r.range(1, 2)};
    Index batch;
    int point = 0;
    Book b([&](const Index& i) { auto q = net_range(i, d); return batch.nonnull() && i == batch ? Range{q.lo + point, 1} : q; });
    b.batched = [&](const Index& i) { return batch.nonnull() && i == batch; };
    int nexpr = julia || r.chance(50) ? 1 : r.range(2, 3);
    vector<Job> jobs;
    bool reset = itf || kind == "torch" || r.chance(50);
    std::map<char, int> at;
    for (int k = 0; k < nexpr; ++k) {
      Gen g(r);
      g.complex = g.adjoints = g.fractions = false;
      g.per_space = g.shapes = true;
      g.budget = itf ? 3 : 5;
      if (!reset) g.count = at;
      Job j;
      j.label = wstring(L"R") + wchar_t(L'a' + k);
      int from = k > 0 && r.chance(50) ? int(r.below(k)) : -1;  // uses the result of that one
      if (from >= 0) for (auto& o : jobs[from].open) { wchar_t sp = o.label[0]; j.open.push_back({wstring(1, sp) + L"_" + std::to_wstring(++g.count[char(sp)]), o.side}); }
      else for (int q = 0, n = r.range(0, 4); q < n; ++q) j.open.push_back(g.fresh(r.chance(15) ? 2 : int(r.below(2))));
      j.e = g.tree(j.open, r.range(1, 3), 0);
      auto build = [&](const vector<Open>& open, const wstring& label) -> ExprPtr {
        if (open.empty()) return ex<Variable>(label);
        vector<Index> s[3];
        for (auto& o : open) s[o.side].push_back(Index(o.label));
        return ex<Tensor>(label, bra(s[0]), ket(s[1]), aux(s[2]), Symmetry::Nonsymm, BraKetSymmetry::Nonsymm, ColumnSymmetry::Nonsymm);
      };
      j.result = build(j.open, j.label);
      if (from >= 0) {
        auto x = build(j.open, jobs[from].label);
        j.e = j.open.empty() && r.chance(50) ? ex<Product>(ExprPtrList{x, j.e}) : ex<Sum>(ExprPtrList{x, j.e});
      }
      at = g.count;
      jobs.push_back(j);
    }
    Case k{r, b, kind, jobs};
    // groups
    int ng = nexpr > 1 && r.chance(60) ? r.range(1, nexpr) : 1;
    for (int q = 0; q < nexpr; ++q) k.group.push_back(std::min(q, ng - 1));
    for (int q = 0; q < ng; ++q) k.names.push_back(!julia && (ng > 1 || r.chance(40)) ? "part" + std::to_string(q) : "");
    if ((kind == "record" || kind == "text" || itf) && nexpr == 1 && !jobs[0].open.empty() && r.chance(25)) {
      batch = k.batch = Index(r.pick(jobs[0].open).label);
      point = int(r.below(net_range(batch, d).n));
    }
    k.retain = kind == "tensorkit" || r.chance(30);
    if (nexpr == 1 && rec && !batch.nonnull() && r.chance(10)) k.bare = true;
    int context = batch.nonnull() ? 2 : int(r.below(3));
    if (kind == "record" && nexpr == 1 && !k.bare && context == 0 && r.chance(20)) k.accumulate = r.range(1, 2);
    auto setup_itf = [&](ItfContext& x) {
      for (auto [s, t, n] : {std::tuple{L"i", "c", "Closed"}, std::tuple{L"a", "e", "External"}, std::tuple{L"K", "F", "Fitting"}}) { x.set_tag(isr->retrieve(s), t); x.set_name(isr->retrieve(s), n); }
      x.set_index_id_offset(1);
    };
    Traits t;
    string decl = "false";
    if (rec) {
      auto scope = [&] { return DeclarationScope(r.below(3)); };
      t = {scope(), scope(), scope(), PrunableScalars(r.below(4)), ng > 1 || r.chance(70), r.chance(30), batch.nonnull()};
      if (!t.sections) { t.required = false; for (auto& n : k.names) n = ""; }
      decl = "true";
    }
    static const MemoryLayout layouts[] = {MemoryLayout::RowMajor, MemoryLayout::ColumnMajor, MemoryLayout::Unspecified};
    auto layout = layouts[r.below(3)];
    auto record = [&]<class C>(C ctx) {
      auto name = std::function<string(const Expr&, const C&)>([](const Expr& e, const C&) { return show(e); });
      if (kind == "optimized") { GenerationOptimizer<Recorder<C>> g(Recorder<C>(&b, t)); k.run<C>(ctx, g, name); }
      else { Recorder<C> g(&b, t); k.run<C>(ctx, g, name); }
    };
    auto text = [&]<class C, class G>(C ctx, G g) {
      k.run<C>(ctx, g, [&](const Expr& e, const C& x) { auto& base = static_cast<Generator<C>&>(g); return e.is<Tensor>() ? base.represent(e.as<Tensor>(), x) : base.represent(e.as<Variable>(), x); });
    };
    auto tags = [&](auto& x) { x.set_tag(isr->retrieve(L"i"), "o"); x.set_tag(isr->retrieve(L"a"), "v"); x.set_tag(isr->retrieve(L"K"), "x"); };
    if (rec) {
      if (context == 0) record(ExportContext{});
      else if (context == 1) { ReorderingContext x(layout); record(x); }
      else { ItfContext x; setup_itf(x); record(x); }
    } else if (kind == "text") {
      if (batch.nonnull()) { ItfContext x; setup_itf(x); text(x, TextGenerator<ItfContext>{}); }
      else if (context == 1) text(ReorderingContext(layout), TextGenerator<ReorderingContext>{});
      else text(ExportContext{}, TextGenerator<ExportContext>{});
    } else if (kind == "numpy") text(NumPyEinsumGeneratorContext{}, NumPyEinsumGenerator{});
    else if (kind == "torch") text(PyTorchEinsumGeneratorContext{}, PyTorchEinsumGenerator{});
    else if (kind == "julia") { JuliaTensorOperationsGeneratorContext x; tags(x); text(x, JuliaTensorOperationsGenerator<>{}); }
    else if (kind == "tensorkit") { JuliaTensorKitGeneratorContext x; tags(x); text(x, JuliaTensorKitGenerator<>{}); }
    else if (kind == "itensor") { JuliaITensorGeneratorContext x; tags(x); text(x, JuliaITensorGenerator<>{}); }
    else { ItfContext x; setup_itf(x); text(x, ItfGenerator<>{}); }
    auto quoted = [](auto& v) { return jlist(v, [](auto& s) { return js(s); }); };
    out.line("{\"id\":" + std::to_string(c) + ",\"kind\":" + js(kind) + ",\"decl\":" + decl + ",\"idx\":" + b.tab.json() + ",\"objs\":" + jlist(b.rows, [](auto& s) { return s; }) + ",\"inputs\":" + (k.inputs.empty() ? "[]" : k.inputs) +
             ",\"want\":" + (k.want.empty() ? "[]" : k.want) + ",\"st\":" + jlist(b.st, [](auto& s) { return s; }) + ",\"text\":" + quoted(b.text) + ",\"code\":" + js(k.code) + ",\"batch\":" + js(batch.nonnull() ? u8(batch.label()) : "") + ",\"sections\":" + quoted(k.names) +
             ",\"dims\":[" + std::to_string(d.ni) + "," + std::to_string(d.na) + "," + std::to_string(d.nk) + "],\"point\":" + std::to_string(point) + ",\"show\":" + js(k.trees) + ",\"err\":" + js(k.err) + "}");
  }
}
