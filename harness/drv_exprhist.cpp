// Replays behaviours of spec/ExprHistory.tla into core/expressions.
#include "replay.hpp"
#include "nets.hpp"
using namespace vf;
using Fl = Product::Flatten;

static Constant::scalar_type sc(const json& s) { return Constant::scalar_type(int(s[0]), int(s[1])); }
static json num(const rational& r) { if (denominator(r) != 1) return u8(L"fraction"); return long(static_cast<long long>(numerator(r))); }
static json sj(const Constant::scalar_type& c) { return json::array({num(c.real()), num(c.imag())}); }
static BraKetSymmetry bks(const string& s) { return s == "N" ? BraKetSymmetry::Nonsymm : s == "C" ? BraKetSymmetry::Conjugate : BraKetSymmetry::Symm; }

static json dump(const Expr& e) {
  if (e.is<Constant>()) return {{"k", "c"}, {"s", sj(e.as<Constant>().value())}};
  if (e.is<Variable>()) return {{"k", "v"}, {"l", u8(e.as<Variable>().label())}, {"cj", e.as<Variable>().conjugated()}};
  if (e.is<Power>()) return {{"k", "^"}, {"b", dump(*e.as<Power>().base())}, {"n", num(e.as<Power>().exponent())}, {"cj", e.as<Power>().conjugated()}};
  if (e.is<Tensor>()) {
    auto& t = e.as<Tensor>();
    wstring l(t.label());
    bool dag = !l.empty() && l.back() == sequant::adjoint_label;
    if (dag) l.pop_back();
    json b = json::array(), q = json::array();
    for (auto& i : t.bra()) b.push_back(u8(i.label()));
    for (auto& i : t.ket()) q.push_back(u8(i.label()));
    return {{"k", "t"}, {"l", u8(l)}, {"dag", dag}, {"b", b}, {"q", q}, {"bk", t.braket_symmetry() == BraKetSymmetry::Nonsymm ? "N" : t.braket_symmetry() == BraKetSymmetry::Conjugate ? "C" : "S"}};
  }
  if (e.is<Product>()) {
    json f = json::array();
    for (auto& x : e.as<Product>().factors()) f.push_back(dump(*x));
    return {{"k", "p"}, {"s", sj(e.as<Product>().scalar())}, {"f", f}};
  }
  if (e.is<Sum>()) {
    json f = json::array();
    for (auto& x : e.as<Sum>().summands()) f.push_back(dump(*x));
    return {{"k", "+"}, {"a", f}};
  }
  return "unknown kind";
}
// builds an expression from nothing but its contents
static ExprPtr build(const json& t) {
  string k = t["k"];
  if (k == "c") return ex<Constant>(sc(t["s"]));
  if (k == "v") { auto v = ex<Variable>(w32(string(t["l"]))); if (t["cj"]) v->as<Variable>().conjugate(); return v; }
  if (k == "^") { auto v = ex<Power>(build(t["b"]), rational(int(t["n"]))); if (t["cj"]) v->as<Power>().conjugate(); return v; }
  if (k == "t") {
    vector<Index> b, q;
    for (auto& i : t["b"]) b.emplace_back(w32(string(i)));
    for (auto& i : t["q"]) q.emplace_back(w32(string(i)));
    wstring l = w32(string(t["l"]));
    if (t["dag"]) l.push_back(sequant::adjoint_label);
    return ex<Tensor>(l, bra(b), ket(q), aux(vector<Index>{}), Symmetry::Nonsymm, bks(t["bk"]), ColumnSymmetry::Nonsymm);
  }
  if (k == "p") {
    Product p;
    p.scale(sc(t["s"]));
    for (auto& f : t["f"]) p.append(1, build(f), Fl::No);
    return ex<Product>(std::move(p));
  }
  Sum s;
  for (auto& f : t["a"]) s.append(build(f));
  return ex<Sum>(s);
}
struct Machine {
  vector<ExprPtr> e;
  Machine() { e = {ex<Variable>(L"a"), build({{"k", "t"}, {"l", "g"}, {"dag", false}, {"b", {"i_1"}}, {"q", {"a_1"}}, {"bk", "N"}}), ex<Constant>(2)}; }
  json see(bool look, const json& want) {
    json r;
    for (size_t k = 0; k < 3; ++k) r["tree"].push_back(dump(*e[k]));
    if (!look) { r["eq"] = want["eq"]; return r; }
    for (size_t k = 0; k < 3; ++k) {
      json row = json::array();
      for (size_t j = 0; j < 3; ++j) {
        bool eq = *e[k] == *e[j], ne = *e[k] != *e[j];
        if (eq == ne) row.push_back("both equal and not");
        else if (eq && e[k]->hash_value() != e[j]->hash_value()) row.push_back("equal, but hash values differ");
        else row.push_back(eq);
      }
      r["eq"].push_back(row);
      // against an object that never was anything else
      if (want["tree"][k] == r["tree"][k]) {
        auto f = build(want["tree"][k]);
        if (dump(*f) == want["tree"][k]) {
          if (!(*f == *e[k]) || !(*e[k] == *f)) r["eq"][k].push_back("differs from an object built with the same contents");
          else if (f->hash_value() != e[k]->hash_value()) r["eq"][k].push_back("hash differs from that of an object built with the same contents");
        }
      }
    }
    return r;
  }
  json step(const json& o) {
    string op = o["op"];
    auto K = [&]() -> ExprPtr& { return e[int(o["k"]) - 1]; };
    auto J = [&]() -> ExprPtr& { return e[int(o["j"]) - 1]; };
    auto I = [&]() -> ExprPtr& { return e[int(o["i"]) - 1]; };
    auto fl = [&] { string f = o["fl"]; return f == "R" ? Fl::Recursively : f == "O" ? Fl::Once : Fl::No; };
    auto part = [&]() -> ExprPtr& { return (*K())[size_t(int(o["n"]) - 1)]; };
    string b = o.value("o", "");
    if (op == "fresh") K() = build(o["e"]);
    else if (op == "alias") K() = J();
    else if (op == "clone") K() = J()->clone();
    else if (op == "assign") { if (b == "*") K() *= J(); else if (b == "+") K() += J(); else K() -= J(); }
    else if (op == "make") K() = b == "*" ? I() * J() : b == "+" ? I() + J() : I() - J();
    else if (op == "scale") K()->as<Product>().scale(sc(o["c"]));
    else if (op == "pappend") K()->as<Product>().append(sc(o["c"]), J(), fl());
    else if (op == "pprepend") K()->as<Product>().prepend(sc(o["c"]), J(), fl());
    else if (op == "sappend") K()->as<Sum>().append(J());
    else if (op == "sprepend") K()->as<Sum>().prepend(J());
    else if (op == "adjoint") K()->adjoint();
    else if (op == "constop") { if (b == "*") *K() *= *J(); else if (b == "+") *K() += *J(); else *K() -= *J(); }
    else if (op == "label") K()->as<Variable>().set_label(w32(string(o["l"])));
    else if (op == "conj") { if (K()->is<Variable>()) K()->as<Variable>().conjugate(); else K()->as<Power>().conjugate(); }
    else if (op == "powmul") *K() *= *J();
    else if (op == "addid") K()->as<Product>().add_identical(J());
    else if (op == "padj") part()->adjoint();
    else if (op == "pscale") part()->as<Product>().scale(sc(o["c"]));
    else if (op == "preplace") { auto x = J()->clone(); part() = x; }
    else throw std::runtime_error("unknown operation " + op);
    return see(o["look"], o["see"]);
  }
};
int main(int argc, char** argv) {
  auto reg = net_registry();
  set_default_context({.index_space_registry_shared_ptr = reg, .vacuum = Vacuum::SingleProduct});
  return replay_main(argc, argv, {}, [] { return std::make_unique<Machine>(); });
}
