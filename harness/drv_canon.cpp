// Canonicalization: writes one record per network with the original expression,
// the distinct canonical forms its presentations were brought to, and what
// canonicalizing again gives.
#include "nets.hpp"
using namespace vf;

int main(int argc, char** argv) {
  // drv_canon OUT SEED COUNT
  Out out(argv[1]);
  uint64_t seed = strtoull(argv[2], nullptr, 10);
  int count = atoi(argv[3]);
  int only = argc > 4 ? atoi(argv[4]) : -1;
  set_num_threads(1);
  set_default_context({.index_space_registry_shared_ptr = net_registry(),
                       .vacuum = Vacuum::SingleProduct,
                       .first_dummy_index_ordinal = 100});
  TensorCanonicalizer::register_instance(std::make_shared<DefaultTensorCanonicalizer>());
  if (string(argv[2]) == "fixed") {
    // two identical tensors that differ in their external indices only
    vector<string> forms;
    auto T = [](std::wstring b1, std::wstring b2, std::wstring k1, std::wstring k2) {
      return ex<Tensor>(L"t", bra{Index(b1), Index(b2)}, ket{Index(k1), Index(k2)}, aux{}, Symmetry::Antisymm, BraKetSymmetry::Nonsymm);
    };
    for (auto e : {T(L"a_4", L"i_1", L"i_2", L"a_5") * T(L"a_5", L"i_6", L"i_3", L"a_4"),
                   T(L"a_36", L"i_6", L"i_3", L"a_33") * T(L"a_33", L"i_1", L"i_2", L"a_36")}) {
      canonicalize(e);
      auto f = show(e);
      if (std::find(forms.begin(), forms.end(), f) == forms.end()) forms.push_back(f);
    }
    out.line("{\"forms\":" + jlist(forms, [](auto& s) { return js(s); }) + "}");
    return 0;
  }
  for (int c = 0; c < count; ++c) {
    if (only >= 0 && c != only) continue;
    Rng r(seed * 1000003 + c);
    NetOptions o;
    o.max_tensors = r.chance(20) ? 5 : 4;
    o.protos = r.chance(15);
    o.hyper = r.chance(15);
    o.bk = r.chance(30);
    o.aux = r.chance(60);
    o.ops = r.chance(25);
    if (o.ops) o.max_tensors = 3;
    int nterms = r.chance(75) ? 1 : r.range(2, 3);
    vector<Net> nets;
    bool star = !o.ops && !o.protos && r.chance(25);
    nets.push_back(star ? random_star(r, o) : random_net(r, o));
    if (star) nterms = 1;
    if (nterms > 1) {
      // further terms: the same tensors connected differently but with the same externals
      for (int k = 1; k < nterms; ++k) {
        Net m = nets[0];
        // exchange external indices of one space that sit on the same side
        vector<int> side(m.idx.size(), -1);
        for (auto& t : m.t) { for (int b : t.bra) side[b] = 0; for (int b : t.ket) side[b] = 1; for (int b : t.aux) side[b] = 2; }
        vector<int> to = iota(m.idx.size());
        int x = int(r.below(m.idx.size())), y = int(r.below(m.idx.size()));
        if (m.idx[x].ext && m.idx[y].ext && m.idx[x].sp == m.idx[y].sp && side[x] == side[y] && m.idx[x].proto.empty() && m.idx[y].proto.empty()) std::swap(to[x], to[y]);
        for (auto& t : m.t) for (auto* v : {&t.bra, &t.ket, &t.aux}) for (auto& b : *v) b = to[b];
        m.num = r.chance(50) ? 1 : -1;
        nets.push_back(m);
      }
    }
    int npres = star ? 14 : 6;
    Dims d;
    {
      Rng q(c);
      d = choose_dims(nets[0], q, nets.size() > 1 ? 50 : 100);
    }
    IdxTable tab([&](const Index& i) { return net_range(i, d); });
    CanonicalizeOptions co = CanonicalizeOptions::default_options();
    const char* method = "complete";
    if (!star && r.chance(35)) { co.method = CanonicalizationMethod::Topological; method = "topological"; }
    bool rapid = !star && r.chance(10);
    if (rapid) { co.method = CanonicalizationMethod::Rapid; method = "rapid"; }
    bool ign = r.chance(50);
    if (ign) co.ignore_named_index_labels = CanonicalizeOptions::IgnoreNamedIndexLabel::No;
    bool extuniq = true;
    for (size_t x = 0; x < nets[0].idx.size(); ++x) for (size_t y = 0; y < x; ++y) if (nets[0].idx[x].ext && nets[0].idx[y].ext && nets[0].idx[x].sp == nets[0].idx[y].sp) extuniq = false;
    bool via_simplify = r.chance(20);
    container::set<Index> named;
    for (size_t k = 0; k < nets[0].idx.size(); ++k) if (nets[0].idx[k].ext) named.insert(net_index(nets[0], identity(nets[0]), int(k)));
    if (r.chance(50)) co.named_indices = named;
    // identical tensors that differ in their external indices only are told
    // apart only if the labels of named indices count: in sums they always do
    bool lone = via_simplify && nets[0].t.size() == 1;
    // the graph does not know the order of operators
    int nops = 0;
    for (auto& t : nets[0].t) nops += t.sig.op;
    bool complete = nops < 2 && co.method == CanonicalizationMethod::Complete && !lone;
    bool strict = complete && (ign || extuniq || nets.size() > 1);
    bool strict_idem = complete && (ign || extuniq);
    auto build = [&](bool first) {
      vector<ExprPtr> ts;
      vector<int> ord = iota(nets.size());
      if (!first) r.shuffle(ord);
      for (int k : ord) ts.push_back(net_expr(nets[k], first ? identity(nets[k]) : random_pres(nets[k], r)));
      if (ts.size() == 1) return ts[0];
      auto s = std::make_shared<Sum>();
      for (auto& t : ts) s->append(t);
      return ExprPtr(s);
    };
    string e0, err, input;
    vector<string> forms, fexpr, texts;
    bool idem = true;
    string idem_text;
    vector<std::pair<int, Range>> ext;
    err = guarded([&] {
      for (int p = 0; p < npres; ++p) {
        ExprPtr e = build(p == 0);
        if (p == 0) { e0 = jexpr(e, tab); input = show(e); }
        texts.push_back(show(e));
        ExprPtr cf = e->clone();
        if (via_simplify) simplify(cf, SimplifyOptions(co)); else canonicalize(cf, co);
        string f = show(cf);
        if (std::find(forms.begin(), forms.end(), f) == forms.end()) { forms.push_back(f); fexpr.push_back(jexpr(cf, tab)); }
        if (p < 2 && !rapid) {
          ExprPtr again = cf->clone();
          if (via_simplify) simplify(again, SimplifyOptions(co)); else canonicalize(again, co);
          if (show(again) != f) { idem = false; idem_text = f + "  -->  " + show(again); }
        }
      }
    });
    for (size_t k = 0; k < nets[0].idx.size(); ++k)
      if (nets[0].idx[k].ext) { Index i = net_index(nets[0], identity(nets[0]), int(k)); ext.push_back({tab(i), net_range(i, d)}); }
    vector<int> extids;
    for (auto& x : ext) extids.push_back(x.first);
    if (e0.empty()) continue;
    fexpr.insert(fexpr.begin(), e0);
    out.line("{\"id\":" + std::to_string(c) + ",\"method\":" + js(method) + ",\"ext\":" + jints(extids) + ",\"idx\":" + tab.json() + ",\"as\":" + assignments(ext, r, 3) +
             ",\"e\":" + jlist(fexpr, [](auto& s) { return s; }) + ",\"forms\":" + jlist(forms, [](auto& s) { return js(s); }) +
             ",\"cls\":" + js(string(o.ops?"O":"")+(o.protos?"P":"")+(star?"*":"")+(o.hyper?"H":"")+(via_simplify?"V":"")+(nets.size()>1?"M":"")+(co.named_indices?"N":"")+(o.aux?"X":"")+(o.bk?"B":"")+(ign?"I":"")+(extuniq?"U":"")) + ",\"strict\":" + (strict ? "true" : "false") + ",\"strictIdem\":" + (strict_idem ? "true" : "false") + ",\"idem\":" + (idem ? "true" : "false") + ",\"idemText\":" + js(idem_text) +
             ",\"err\":" + js(err) + ",\"text\":" + jlist(texts, [](auto& s) { return js(s); }) + "}");
  }
  return 0;
}
