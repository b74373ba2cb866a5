// Builds the objects of a batch (spec/Objects.tla) and reports what ==, !=,
// hashes and the orders say of every pair of them.
#include <SeQuant/core/utility/tensor.hpp>
#include "replay.hpp"
using namespace vf;
namespace {
const vector<IndexSpace>& spaces() {
  static vector<IndexSpace> s{{L"i", 1, 0}, {L"a", 2, 0}, {L"p", 3, 0}, {L"x", 1, 1}, {L"y", 2, 2}};
  return s;
}
int N(const json& o, const char* k) { return o.at(k).get<int>(); }
Index index(const json& o) {
  int sp = N(o, "sp"), ord = N(o, "ord");
  if (sp == 0) return Index::null;
  container::vector<Index> pr;
  for (auto& p : o["pr"]) pr.push_back(index(p));
  auto& s = spaces()[sp - 1];
  if (pr.empty()) return ord ? Index(s, ord) : Index(s);
  return ord ? Index(s, ord, pr) : Index(s, pr);
}
vector<Index> indices(const json& l) {
  vector<Index> r;
  for (auto& i : l) r.push_back(index(i));
  return r;
}
rational number(const json& o) { return rational(N(o, "n"), N(o, "d")); }
Constant::scalar_type scalar(const json& o) { return {number(o["re"]), number(o["im"])}; }
IndexSpace space(const json& o) {
  return IndexSpace(wstring(1, L'a' + N(o, "key")), N(o, "type"), N(o, "qn"), N(o, "size") * 7);
}
template <Statistics S>
Op<S> op(const json& o) { return Op<S>(index(o["i"]), N(o, "act") == 1 ? Action::Create : Action::Annihilate); }
Vacuum vac(const json& o) { return N(o, "vac") == 1 ? Vacuum::Physical : Vacuum::SingleProduct; }
template <Statistics S>
NormalOperator<S> nop(const json& o) { return NormalOperator<S>(cre(indices(o["cre"])), ann(indices(o["ann"])), vac(o)); }
ExprPtr expr(const json& o);
template <Statistics S>
ExprPtr stat(const json& o) {
  string k = o["k"];
  if (k == "operator") {
    std::shared_ptr<Operator<S>> r = std::make_shared<Operator<S>>();
    for (auto& x : o["ops"]) r->push_back(op<S>(x));
    return r;
  }
  if (k == "nop") return ex<NormalOperator<S>>(nop<S>(o));
  vector<NormalOperator<S>> v;
  for (auto& x : o["a"]) v.push_back(nop<S>(x));
  switch (v.size()) {
    case 0: return ex<NormalOperatorSequence<S>>();
    case 1: return ex<NormalOperatorSequence<S>>(v[0]);
    case 2: return ex<NormalOperatorSequence<S>>(v[0], v[1]);
    case 3: return ex<NormalOperatorSequence<S>>(v[0], v[1], v[2]);
    case 4: return ex<NormalOperatorSequence<S>>(v[0], v[1], v[2], v[3]);
    case 5: return ex<NormalOperatorSequence<S>>(v[0], v[1], v[2], v[3], v[4]);
    default: return ex<NormalOperatorSequence<S>>(v[0], v[1], v[2], v[3], v[4], v[5]);
  }
}
ExprPtr expr(const json& o) {
  string k = o["k"];
  if (k == "operator" || k == "nop" || k == "nopseq") return N(o, "s") == 1 ? stat<Statistics::FermiDirac>(o) : stat<Statistics::BoseEinstein>(o);
  if (k == "tensor") {
    string y = o["sym"], b = o["bk"], c = o["col"];
    return ex<Tensor>(N(o, "label") == 1 ? L"f" : L"g", bra(indices(o["b"])), ket(indices(o["q"])), aux(indices(o["x"])),
                      y == "n" ? Symmetry::Nonsymm : y == "a" ? Symmetry::Antisymm : Symmetry::Symm,
                      b == "n" ? BraKetSymmetry::Nonsymm : b == "c" ? BraKetSymmetry::Conjugate : BraKetSymmetry::Symm,
                      c == "n" ? ColumnSymmetry::Nonsymm : ColumnSymmetry::Symm);
  }
  if (k == "const") return ex<Constant>(scalar(o));
  if (k == "var") {
    auto v = ex<Variable>(wstring(1, L'u' + N(o, "label")));
    if (N(o, "conj")) v->as<Variable>().conjugate();
    return v;
  }
  if (k == "power") {
    auto p = ex<Power>(expr(o["a"][0]), number(o["e"]));
    if (N(o, "conj")) p->as<Power>().conjugate();
    return p;
  }
  if (k == "prod") {
    Product p;
    p.scale(scalar(o["c"]));
    for (auto& x : o["a"]) p.append(1, expr(x), Product::Flatten::No);
    return ex<Product>(std::move(p));
  }
  Sum s;
  for (auto& x : o["a"]) s.append(expr(x));
  s.append(ex<Constant>(scalar(o["c"])));
  return ex<Sum>(std::move(s));
}
struct Report {
  json r;
  size_t n;
  std::map<size_t, size_t> ids;
  template <class F>
  json matrix(F f) {
    json m = json::array();
    for (size_t i = 0; i < n; ++i) {
      json row = json::array();
      for (size_t j = 0; j < n; ++j) row.push_back(f(i, j) ? 1 : 0);
      m.push_back(row);
    }
    return m;
  }
  template <class F> void lt(const char* what, F f) { r["lt"][what] = matrix(f); }
  template <class F> void same(const char* what, F f) { r["same"][what] = matrix(f); }
  template <class V> void basic(const V& a, const V& b) {
    r["eq"] = matrix([&](auto i, auto j) { return a[i] == b[j]; });
    r["ne"] = matrix([&](auto i, auto j) { return a[i] != b[j]; });
  }
  void hash(size_t h) { r["hash"].push_back(ids.emplace(h, ids.size() + 1).first->second); }
};
struct AnyOp {
  std::variant<FOp, BOp> v;
  explicit AnyOp(const json& o) {
    if (N(o, "s") == 1) v = op<Statistics::FermiDirac>(o);
    else v = op<Statistics::BoseEinstein>(o);
  }
};
void look(Report& q, const string& fam, const json& os, size_t t) {
  auto build = [&](auto make) {
    vector<decltype(make(os[0]))> v;
    for (auto& o : os) v.push_back(make(o));
    return v;
  };
  if (fam == "space") {
    auto a = build(space), b = build(space);
    q.basic(a, b);
    for (auto& x : a) q.hash(hash_value(x));
    q.lt("space <", [&](auto i, auto j) { return a[i] < b[j]; });
    q.lt("space >", [&](auto i, auto j) { return a[j] > b[i]; });
    q.lt("space key", [&](auto i, auto j) { return IndexSpace::KeyCompare{}(a[i], b[j]); });
    q.lt("space attr", [&](auto i, auto j) { return IndexSpace::AttrCompare{}(a[i], b[j]); });
  } else if (fam == "index") {
    auto make = [&](const json& o) { return index(o["i"]); };
    auto a = build(make), b = build(make);
    for (auto& x : a) q.hash(hash_value(x));
    if (t % 2) {
      for (size_t i = 0; i < a.size(); ++i) {
        int tag = (3 * a[i].space().type().to_int32() + int(a[i].ordinal().value_or(0))) % 3;
        a[i].tag().assign(tag); b[i].tag().assign(tag);
      }
    }
    q.basic(a, b);
    q.lt("index <", [&](auto i, auto j) { return a[i] < b[j]; });
    q.lt("index full", [&](auto i, auto j) { return Index::FullLabelCompare{}(a[i], b[j]); });
    q.lt("index label", [&](auto i, auto j) { return Index::LabelCompare{}(a[i], b[j]); });
    q.lt("index type", [&](auto i, auto j) { return Index::TypeCompare{}(a[i], b[j]); });
    q.same("index type", [&](auto i, auto j) { return Index::TypeEquality{}(a[i], b[j]); });
  } else if (fam == "op") {
    auto make = [&](const json& o) { return AnyOp(o); };
    auto a = build(make), b = build(make);
    auto with = [&](size_t i, size_t j, auto f) { return std::visit([&](auto& x, auto& y) -> bool { return f(x, y); }, a[i].v, b[j].v); };
    auto alike = [&](size_t i, size_t j, auto f) {
      return with(i, j, [&](auto& x, auto& y) -> bool {
        if constexpr (std::is_same_v<decltype(x), decltype(y)>) return f(x, y);
        else return false;
      });
    };
    q.r["eq"] = q.matrix([&](auto i, auto j) { return alike(i, j, [](auto& x, auto& y) { return x == y; }); });
    q.r["ne"] = q.matrix([&](auto i, auto j) { return a[i].v.index() != b[j].v.index() || alike(i, j, [](auto& x, auto& y) { return x != y; }); });
    for (auto& x : a) q.hash(std::visit([](auto& y) -> size_t { return hash_value(y); }, x.v));
    q.lt("op <", [&](auto i, auto j) { return with(i, j, [](auto& x, auto& y) { return x < y; }); });
    bool one = true;
    for (auto& x : a) one = one && x.v.index() == a[0].v.index();
    if (one) {
      q.lt("op type", [&](auto i, auto j) { return alike(i, j, [](auto& x, auto& y) { return typename std::remove_cvref_t<decltype(x)>::TypeCompare{}(x, y); }); });
      q.same("op type", [&](auto i, auto j) { return alike(i, j, [](auto& x, auto& y) { return typename std::remove_cvref_t<decltype(x)>::TypeEquality{}(x, y); }); });
    }
  } else {
    auto a = build(expr), b = build(expr);
    if (t % 2) for (auto& x : a) x->hash_value();
    if (t % 3 == 0 && fam != "nopseq") for (auto& x : b) x = x->clone();
    q.r["eq"] = q.matrix([&](auto i, auto j) { return *a[i] == *b[j]; });
    q.r["ne"] = q.matrix([&](auto i, auto j) { return a[i] != b[j]; });
    for (auto& x : a) q.hash(hash::value(*x));
    q.lt("expr <", [&](auto i, auto j) { return *a[i] < *b[j]; });
    if (fam == "tensor") {
      q.lt("block", [&](auto i, auto j) { return TensorBlockLessThanComparator{}(a[i], b[j]); });
      q.same("block", [&](auto i, auto j) { return TensorBlockEqualComparator{}(a[i], b[j]); });
      vector<Index> some;
      for (auto& x : a) for (auto& i : x->template as<Tensor>().const_indices()) if (some.size() < 3 && i.nonnull() && std::find(some.begin(), some.end(), i) == some.end()) some.push_back(i);
      IndexSpecificTensorBlockLessThanComparator less(some);
      q.lt("block with indices", [&](auto i, auto j) { return less(a[i], b[j]); });
    }
    // through the types themselves
    if (fam == "nop") {
      auto native = [&](auto S) {
        constexpr Statistics s = decltype(S)::value;
        for (auto& o : os) if (N(o, "s") != (s == Statistics::FermiDirac ? 1 : 2)) return;
        q.lt("nop <", [&](auto i, auto j) { return static_cast<const AbstractTensor&>(a[i]->template as<NormalOperator<s>>()) < static_cast<const AbstractTensor&>(b[j]->template as<NormalOperator<s>>()); });
      };
      native(std::integral_constant<Statistics, Statistics::FermiDirac>{});
      native(std::integral_constant<Statistics, Statistics::BoseEinstein>{});
    }
  }
}
}  // namespace
int main(int argc, char** argv) {
  if (argc < 3) return 2;
  Out out(argv[1]);
  std::ifstream in(argv[2]);
  string line;
  auto reg = std::make_shared<IndexSpaceRegistry>();
  for (auto& s : spaces()) reg->add(s);
  set_default_context({.index_space_registry_shared_ptr = reg, .vacuum = Vacuum::Physical, .first_dummy_index_ordinal = 100000});
  for (size_t t = 0; std::getline(in, line); ++t) {
    auto tr = json::parse(line);
    Report q;
    json os = json::array();
    for (auto& s : tr) os.push_back(s["o"]);
    q.n = os.size();
    q.r = json{{"t", t}, {"fam", tr[0]["op"]}, {"o", os}, {"lt", json::object()}, {"same", json::object()}, {"hash", json::array()}};
    q.r["err"] = guarded([&] { look(q, tr[0]["op"], os, t); });
    out.line(q.r.dump());
  }
  return 0;
}
