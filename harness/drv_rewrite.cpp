// Rewrites of random expression trees: expand, flatten, simplify, adjoint,
// arithmetic.  Records input and outputs for SameValue.
#include "trees.hpp"
using namespace vf;

// the expression built anew, without any memoized hash
ExprPtr rebuild(const ExprPtr& e) {
  // in-place assignment, since constructors absorb constants and drop zeros
  auto fill = [&](ExprPtr q) {
    size_t k = 0;
    for (auto& f : *q) f = rebuild(e->at(k++));
    q->begin();
    return q;
  };
  if (e->is<Product>()) {
    auto p = std::make_shared<Product>();
    for (size_t k = 0; k < e->as<Product>().factors().size(); ++k) p->append(1, ex<Variable>(L"?" + std::to_wstring(k)), Product::Flatten::No);
    p->scale(e->as<Product>().scalar());
    return fill(p);
  }
  if (e->is<Sum>()) {
    auto p = std::make_shared<Sum>();
    for (size_t k = 0; k < e->as<Sum>().summands().size(); ++k) p->append(ex<Variable>(L"?" + std::to_wstring(k)));
    return fill(p);
  }
  if (e->is<Constant>()) return ex<Constant>(e->as<Constant>().value());
  if (e->is<Variable>()) { auto v = ex<Variable>(wstring(e->as<Variable>().label())); if (e->as<Variable>().conjugated()) v->adjoint(); return v; }
  if (e->is<Power>()) { auto v = ex<Power>(rebuild(e->as<Power>().base()), e->as<Power>().exponent()); if (e->as<Power>().conjugated()) v->adjoint(); return v; }
  if (e->is<Tensor>()) {
    auto& t = e->as<Tensor>();
    return ex<Tensor>(wstring(t.label()), bra(t.bra()), ket(t.ket()), aux(t.aux()), t.symmetry(), t.braket_symmetry(), t.column_symmetry());
  }
  if (e->is<FNOperator>()) {
    auto& o = e->as<FNOperator>();
    vector<Index> c, a;
    for (auto& x : o.creators()) c.push_back(x.index());
    for (auto& x : o.annihilators()) a.push_back(x.index());
    return ex<FNOperator>(cre(c), ann(a), o.vacuum());
  }
  throw std::runtime_error("rebuild");
}

bool flat(const Expr& e) {
  if (e.is<Product>()) { for (auto& f : e.as<Product>().factors()) if (f->is<Product>() || f->is<Constant>() || !flat(*f)) return false; }
  if (e.is<Sum>()) { for (auto& f : e.as<Sum>().summands()) if (f->is<Sum>() || !flat(*f)) return false; }
  return true;
}

int main(int argc, char** argv) {
  Out out(argv[1]);
  uint64_t seed = strtoull(argv[2], nullptr, 10);
  int count = atoi(argv[3]);
  int only = argc > 4 ? atoi(argv[4]) : -1;
  set_num_threads(1);
  set_default_context({.index_space_registry_shared_ptr = net_registry(), .vacuum = Vacuum::SingleProduct, .first_dummy_index_ordinal = 100});
  TensorCanonicalizer::register_instance(std::make_shared<DefaultTensorCanonicalizer>());
  for (int c = 0; c < count; ++c) {
    if (only >= 0 && c != only) continue;
    Rng r(seed * 1000003 + c);
    Dims d{2, 2, 2};
    IdxTable tab([&](const Index& i) { return net_range(i, d); });
    Gen g(r);
    g.zeros = r.chance(40);
    vector<Open> open;
    int no = int(r.below(4)), nops = r.chance(20) ? r.range(1, 2) : 0;
    for (int k = 0; k < no; ++k) open.push_back(g.fresh(r.chance(10) ? 2 : int(r.below(2))));
    int depth = r.range(1, 3);
    string text, at;
    struct Rec { string what, in, out, form; };
    vector<string> es, forms, names, shows;
    string stale, err;
    auto check_hash = [&](const ExprPtr& e, const string& what) {
      auto fresh = rebuild(e);
      string q;
      q = guarded([&] { if (e->hash_value() != fresh->hash_value()) q = "hash differs"; });
      bool eq = true;
      string t = guarded([&] { eq = *e == *fresh; });
      if (q.empty() && t.empty() && e->hash_value() != fresh->hash_value()) q = "hash value is not that of the contents";
      if (q.empty() && !t.empty()) q = t;
      if (q.empty() && !eq) q = "not equal to an expression with the same contents";
      if (!q.empty() && stale.empty()) stale = what + ": " + q + "\n" + show(e);
    };
    vector<std::pair<int, Range>> ext;
    auto touch = [&](const ExprPtr& e) { e->hash_value(); if (r.chance(50)) e->visit([](const ExprPtr& x) { x->hash_value(); }); };
    // one line for each group: the first expression is what the others must equal
    auto group = [&](string first, const string& txt) { es = {first}; forms = {""}; names = {txt}; shows = {txt}; };
    auto add = [&](const char* what, const ExprPtr& e, const char* form) {
      at = what;
      names.push_back(what); es.push_back(jexpr(e, tab)); forms.push_back(form); shows.push_back(show(e));
      check_hash(e, what);
    };
    auto flush = [&](int g) {
      vector<int> ids;
      for (auto& x : ext) ids.push_back(x.first);
      out.line("{\"id\":" + std::to_string(c * 10 + g) + ",\"ext\":" + jints(ids) + ",\"idx\":" + tab.json() + ",\"as\":" + assignments(ext, r, 3) + ",\"e\":" + jlist(es, [](auto& s) { return s; }) +
               ",\"f\":" + jlist(forms, [](auto& s) { return js(s); }) + ",\"names\":" + jlist(names, [](auto& s) { return js(s); }) + ",\"shows\":" + jlist(shows, [](auto& s) { return js(s); }) +
               ",\"stale\":" + js(stale) + ",\"err\":" + js(err) + "}");
      stale = err = "";
    };
    ExprPtr e = g.tree(open, depth, nops);
    for (auto& o : open) { Index i(o.label); ext.push_back({tab(i), net_range(i, d)}); }
    text = show(e);
    SimplifyOptions so = SimplifyOptions::default_options();
    if (r.chance(40)) so.method = CanonicalizationMethod::Topological; else if (r.chance(20)) so.method = CanonicalizationMethod::Rapid;
    auto run = [&](auto&& f) { err = guarded([&] { f(); }); if (!err.empty()) err = at + ": " + err; };
    auto ready = [&](const ExprPtr& e) { auto c = rebuild(e); touch(c); return c; };
    group(jexpr(e, tab), text);
    run([&] {
      at = "expand"; auto a = ready(e); expand(a); add("expand", a, "expanded");
      at = "flatten"; a = ready(e); flatten(a); add("flatten", a, "flat");
      if (nops < 2) {
        // canonicalization gives dummy indices of nested products labels that are unique only there
        at = "canonicalize"; a = ready(e); canonicalize(a, so); add("canonicalize", a, "scoped");
        touch(a); canonicalize(a, so); add("canonicalize, canonicalize", a, "scoped");
        at = "rapid_canonicalize"; a = ready(e); { auto o = so; o.method = CanonicalizationMethod::Rapid; auto bp = a->rapid_canonicalize(o); if (bp) a = bp * a; } add("rapid_canonicalize", a, "scoped");
      }
      at = "rapid_simplify"; a = ready(e); rapid_simplify(a); add("rapid_simplify", a, "");
      at = "simplify"; a = ready(e); simplify(a, so); add("simplify", a, "expanded");
      at = "non_canon_simplify"; a = ready(e); non_canon_simplify(a); add("non_canon_simplify", a, "expanded");
      at = "flatten, expand"; a = ready(e); flatten(a); touch(a); expand(a); touch(a); flatten(a); add("flatten, expand, flatten", a, "flat");
      at = "expand, simplify twice"; a = ready(e); expand(a); touch(a); simplify(a, so); touch(a); simplify(a, so); add("expand, simplify, simplify", a, "expanded");
      at = "clone"; a = ready(e)->clone(); add("clone", a, "same");
      at = "simplify rvalue"; a = simplify(ready(e), so); add("simplify rvalue", a, "expanded");
    });
    flush(0);
    group("{\"k\":\"adj\",\"e\":" + jexpr(e, tab) + "}", "adjoint of " + text);
    run([&] {
      at = "adjoint"; auto a = ready(e); a->adjoint(); add("adjoint", a, "");
      at = "adjoint, simplify"; touch(a); simplify(a, so); add("adjoint, simplify", a, "");
      at = "simplify, adjoint"; a = ready(e); simplify(a, so); touch(a); a->adjoint(); add("simplify, adjoint", a, "");
      at = "adjoint()"; a = adjoint(ready(e)); add("adjoint()", a, "");
    });
    flush(1);
    group(jexpr(e, tab), text);
    run([&] { at = "adjoint twice"; auto a = ready(e); a->adjoint(); touch(a); a->adjoint(); add("adjoint twice", a, flat(*e) ? "same" : ""); });
    flush(2);
    if (c == 0) {
      // canonicalizing a nested product may give its dummy indices labels used outside of it
      auto o1 = Index(L"i_1");
      ExprPtr inner = ex<Product>(ExprPtrList{ex<Tensor>(L"u", bra{Index(L"i_5")}, ket{Index(L"i_6")}), ex<Tensor>(L"t", bra{Index(L"i_6")}, ket{Index(L"i_5"), Index(L"i_2")}, Symmetry::Nonsymm)});
      auto p = std::make_shared<Product>();
      p->append(1, ex<Tensor>(L"f", bra{o1}, ket{Index(L"i_3")}), Product::Flatten::No);
      p->append(1, inner, Product::Flatten::No);
      ExprPtr q = p;
      auto ext0 = ext;
      ext.clear();
      for (auto l : {L"i_1", L"i_2", L"i_3"}) { Index i(l); ext.push_back({tab(i), net_range(i, d)}); }
      group(jexpr(q, tab), show(q));
      run([&] { at = "canonicalize, flatten"; canonicalize(q, CanonicalizeOptions::default_options()); flatten(q); add("canonicalize, flatten", q, ""); });
      flush(9);
      ext = ext0;
    }
    // arithmetic
    g.budget = 2;
    ExprPtr y = r.chance(20) ? e->clone() : g.tree(open, r.range(0, 2), nops);
    auto je = jexpr(e, tab), jy = jexpr(y, tab);
    auto minus = [](const string& x) { return "{\"k\":\"p\",\"s\":{\"re\":[46336,1],\"im\":[0,1]},\"a\":[" + x + "]}"; };
    group("{\"k\":\"+\",\"a\":[" + je + "," + jy + "]}", text + "  +  " + show(y));
    run([&] {
      at = "+"; auto a = ready(e) + ready(y); add("+", a, "");
      simplify(a, so); add("+, simplify", a, "expanded");
      at = "+="; a = ready(e)->clone(); a += ready(y); add("+=", a, "");
    });
    flush(3);
    group("{\"k\":\"+\",\"a\":[" + je + "," + minus(jy) + "]}", text + "  -  " + show(y));
    run([&] {
      at = "-"; auto a = ready(e) - ready(y); add("-", a, "");
      simplify(a, so); add("-, simplify", a, "expanded");
      at = "-="; a = ready(e)->clone(); a -= ready(y); add("-=", a, "");
    });
    flush(4);
    vector<Open> open2;
    for (int k = 0, m = int(r.below(3)); k < m; ++k) open2.push_back(g.fresh(int(r.below(2))));
    ExprPtr z = g.tree(open2, r.range(0, 2), 0);
    auto jz = jexpr(z, tab);
    for (auto& o : open2) { Index i(o.label); ext.push_back({tab(i), net_range(i, d)}); }
    group("{\"k\":\"p\",\"s\":{\"re\":[1,1],\"im\":[0,1]},\"a\":[" + je + "," + jz + "]}", text + "  *  " + show(z));
    run([&] {
      at = "*"; auto a = ready(e) * ready(z); add("*", a, "");
      simplify(a, so); add("*, simplify", a, "expanded");
      at = "^"; a = ready(e) ^ ready(z); add("^", a, "");
      at = "^ expand"; touch(a); expand(a); add("^, expand", a, "expanded");
      at = "*="; a = ready(e)->clone(); a *= ready(z); add("*=", a, "");
    });
    flush(5);
  }
  return 0;
}
