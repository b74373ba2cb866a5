// Replays behaviours of spec/Indices.tla: index replacement and index queries.
#include "replay.hpp"
#include <SeQuant/core/expressions/tensor.hpp>
#include <SeQuant/core/tensor_network/utils.hpp>
#include <SeQuant/core/utility/expr.hpp>
#include <SeQuant/core/utility/indices.hpp>
using namespace vf;

static const wchar_t* const keys[] = {L"", L"i", L"a", L"m"};
static Index index_of(const json& j) {
  int s = j["s"];
  if (s == 0) return Index::null;
  vector<Index> pr;
  if (j.contains("p")) for (auto& q : j["p"]) { Index x(wstring(keys[int(q["s"])]) + L"_" + std::to_wstring(int(q["n"]))); if (q.value("t", false)) x.tag().assign(0); pr.push_back(x); }
  auto l = wstring(keys[s]) + L"_" + std::to_wstring(int(j["n"]));
  Index r = pr.empty() ? Index(l) : Index(l, pr);
  if (j.value("t", false)) r.tag().assign(0);
  return r;
}
static json plain(const Index& i) {  // space and ordinal, from what the user reads: the label
  auto l = wstring(i.label());
  auto u = l.find(L'_');
  int s = -1;
  for (int k = 1; k < 4; ++k) if (l.substr(0, u) == keys[k]) s = k;
  return {{"s", s}, {"n", std::stoi(l.substr(u + 1))}};
}
static bool mentions(const Index& i, const Index& p) { return i.full_label().find(p.label()) != std::wstring_view::npos; }
static json index_json(const Index& i, bool tags) {
  if (!i.nonnull()) return tags ? json{{"s", 0}, {"n", 0}, {"p", json::array()}, {"t", false}} : json{{"s", 0}, {"n", 0}, {"p", json::array()}};
  json r = plain(i);
  vector<std::pair<std::pair<int, int>, json>> ps;
  for (auto& q : i.proto_indices()) {
    json x = plain(q);
    if (!mentions(i, q)) x["n"] = -1;  // full label out of date
    if (tags) x["t"] = q.tag().has_value();
    ps.push_back({{x["s"], x["n"]}, x});
  }
  std::sort(ps.begin(), ps.end(), [](auto& a, auto& b) { return a.first < b.first; });
  r["p"] = json::array();
  for (auto& p : ps) r["p"].push_back(p.second);
  if (tags) r["t"] = i.tag().has_value();
  return r;
}
static ExprPtr factor_of(const json& j) {
  auto list = [&](const char* s) { vector<Index> v; for (auto& i : j[s]) v.push_back(index_of(i)); return v; };
  string k = j["k"];
  auto b = list("b"), q = list("q"), x = list("x");
  if (k == "F") return ex<FNOperator>(cre(q), ann(b));
  if (k == "B") return ex<BNOperator>(cre(q), ann(b));
  auto l = k == "A" ? reserved::antisymm_label() : k == "S" ? reserved::symm_label() : w32(k);
  return ex<Tensor>(l, bra(b), ket(q), aux(x), k == "A" || k == "g" ? Symmetry::Antisymm : Symmetry::Nonsymm, std::nullopt,
                    k == "n" || k == "t" ? ColumnSymmetry::Nonsymm : ColumnSymmetry::Symm);
}
static string kind_of(const Expr& e) {
  if (e.is<FNOperator>()) return "F";
  if (e.is<BNOperator>()) return "B";
  auto l = e.as<Tensor>().label();
  return l == reserved::antisymm_label() ? "A" : l == reserved::symm_label() ? "S" : u8(l);
}
static json factor_json(const Expr& e) {
  auto& t = dynamic_cast<const AbstractTensor&>(e);
  auto list = [](auto&& r) { json v = json::array(); for (auto&& i : r) v.push_back(index_json(i, true)); return v; };
  return {{"k", kind_of(e)}, {"b", list(t._bra())}, {"q", list(t._ket())}, {"x", list(t._aux())}};
}
static json groups(const Expr& e) {
  auto g = get_unique_indices(e);
  auto list = [](auto& r) { json v = json::array(); for (auto& i : r) v.push_back(index_json(i, false)); return v; };
  return {{"ub", list(g.bra)}, {"uq", list(g.ket)}, {"ux", list(g.aux)}};
}
static json externals(const Expr& e, bool columns) {
  json all = json::array(), cols = json::array();
  for (auto& g : external_indices(e)) {
    json c = json::array();
    for (auto& s : g) {
      json x{{"slot", s.slot_type() == SlotType::Bra ? "b" : s.slot_type() == SlotType::Ket ? "q" : "x"}, {"i", index_json(s.index(), false)}};
      c.push_back(x);
      all.push_back(x);
    }
    if (g.empty()) all.push_back("an empty group");
    cols.push_back({{"col", c}});
  }
  return columns ? json{{"cols", cols}} : json{{"set", all}};
}

struct Machine {
  ExprPtr prod;
  vector<ExprPtr> f;
  int c = 1;
  Machine() {
    for (int k = 0; k < 3; ++k) f.push_back(ex<Tensor>(L"t", bra{L"i_1"}, ket{L"a_1"}, aux{}, Symmetry::Nonsymm, std::nullopt, ColumnSymmetry::Nonsymm));
    gather();
  }
  void gather() {
    auto p = std::make_shared<Product>();
    p->scale(c);
    for (auto& x : f) p->append(1, x, Product::Flatten::No);
    prod = p;
  }
  void scatter() {  // the product is what the library returned
    f.assign(prod->as<Product>().factors().begin(), prod->as<Product>().factors().end());
    auto s = prod->as<Product>().scalar();
    c = s.imag() == 0 && denominator(s.real()) == 1 ? int(static_cast<long long>(numerator(s.real()))) : -99999;
  }
  json used() {
    json r = json::array();
    auto two = std::make_shared<Sum>();
    two->append(prod->clone()); two->append(prod->clone());
    auto m = get_used_indices_with_counts(prod), mm = get_used_indices_with_counts(*two);
    auto plain_set = get_used_indices(prod);
    for (auto& [i, n] : m) {
      json x{{"i", index_json(i, false)}, {"c", {{"b", n.bra}, {"q", n.ket}, {"x", n.aux}, {"p", n.proto}}}};
      auto it = mm.find(i);
      if (!plain_set.count(i)) x["c"] = "not in get_used_indices";
      if (it == mm.end() || it->second.bra != 2 * n.bra || it->second.total() != 2 * n.total() || it->second.nonproto() != 2 * n.nonproto()) x["c"] = "not doubled in a sum";
      r.push_back(x);
    }
    if (mm.size() != m.size() || plain_set.size() != m.size()) r.push_back("size");
    return r;
  }
  json step(const json& op) {
    string o = op["op"];
    bool ret = false;
    auto map_of = [&] { container::map<Index, Index> m; for (auto& e : op["m"]) m.emplace(index_of(e["from"]), index_of(e["to"])); return m; };
    auto at = [&]() -> AbstractTensor& { return dynamic_cast<AbstractTensor&>(*f.at(int(op["n"]) - 1)); };
    for (auto& x : f) x->hash_value();
    prod->hash_value();
    if (o == "put") { f.at(int(op["n"]) - 1) = factor_of(op["to"]); gather(); }
    else if (o == "reset") { reset_tags(at()); gather(); }
    else if (o == "transform") { ret = transform_indices(at(), map_of()); gather(); }
    else if (o == "apply") {
      apply_index_replacements(at(), map_of(), op["again"]);
      gather();
    } else if (o == "everywhere") { auto before = prod->clone(); auto was = prod; prod = transform_expr(prod, map_of(), Constant::scalar_type(int(op["s"]))); if (!(*was == *before)) throw std::runtime_error("transform_expr changed its argument"); scatter(); }
    else if (o == "replace") {
      auto from = factor_of(op["from"]), to = factor_of(op["to"]);
      auto block = [](const Expr& a, const Expr& b) {
        auto *x = dynamic_cast<const AbstractTensor*>(&a), *y = dynamic_cast<const AbstractTensor*>(&b);
        if (!x || !y || kind_of(a) != kind_of(b)) return false;
        TensorBlockCompare cmp;
        if (cmp(*x, *y) || cmp(*y, *x)) return false;
        auto protos = [](const AbstractTensor& t) {
          vector<size_t> v;
          auto add = [&](auto&& r) { for (auto&& i : r) v.push_back(i.proto_indices().size()); };
          add(t._bra()); add(t._ket()); add(t._aux());
          return v;
        };
        if (protos(*x) != protos(*y)) return false;
        return true;
      };
      if (op["how"] == "same") replace(prod, from, to);
      else replace(prod, from, to, block);
      scatter();
    } else throw std::runtime_error("op " + o);
    json got{{"ret", ret}, {"c", c}, {"f", json::array()}};
    for (auto& x : f) {
      json j = factor_json(*x);
      auto fresh = factor_of(j);
      if (!(*fresh == *x) || fresh->hash_value() != x->hash_value()) j["k"] = "not equal to the same factor built anew, or of another hash";
      got["f"].push_back(j);
    }
    {
      auto p = std::make_shared<Product>();
      p->scale(c);
      for (auto& x : f) p->append(1, factor_of(factor_json(*x)), Product::Flatten::No);
      if (!(*p == *prod) || p->hash_value() != prod->hash_value()) got["c"] = "product not equal to the same product built anew, or of another hash";
    }
    got["used"] = used();
    json no{{"no", true}};
    auto& want = op["see"];
    got["uniq"] = want["uniq"].contains("no") ? no : groups(*prod);
    got["ext"] = want["ext"].contains("no") ? no : externals(*prod, want["ext"].contains("cols"));
    got["each"] = json::array();
    for (size_t k = 0; k < f.size(); ++k)
      got["each"].push_back(want["each"][k].contains("no") ? no : json{{"uniq", groups(*f[k])}, {"ext", externals(*f[k], want["each"][k]["ext"].contains("cols"))}});
    return got;
  }
};

int main(int argc, char** argv) {
  auto reg = std::make_shared<IndexSpaceRegistry>();
  reg->add(L"i", 1).add(L"a", 2).add(L"m", 4);
  set_default_context({.index_space_registry_shared_ptr = reg, .vacuum = Vacuum::SingleProduct, .spbasis = SPBasis::Spinor, .first_dummy_index_ordinal = 100});
  TensorCanonicalizer::register_instance(std::make_shared<DefaultTensorCanonicalizer>());
  return replay_main(argc, argv, {"used", "ub", "uq", "ux", "set", "col"}, [] { return std::make_unique<Machine>(); });
}
