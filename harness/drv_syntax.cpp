// Cases of spec/Texts.tla: expressions written and read, texts read.
#include <SeQuant/core/expressions/result_expr.hpp>
#include <SeQuant/core/io/serialization/serialization.hpp>
#include "replay.hpp"
#include "nets.hpp"
using namespace vf;
using Fl = Product::Flatten;
namespace ser = io::serialization;

static const std::map<string, wstring> wide = {{"%", L"\u00e3"}, {"~", L"\u0303"}, {"@", L"\u2191"}, {"&", L"\u2193"}, {"$", L"\u03b1"}, {"#", L"\u207a"}};
static wstring text(const json& cs) {
  wstring s;
  for (auto& c : cs) { string x = c; auto it = wide.find(x); s += it == wide.end() ? w32(x) : it->second; }
  return s;
}
static json chars(std::wstring_view s) {
  json r = json::array();
  for (wchar_t c : s) {
    string x = u8(wstring(1, c));
    for (auto& [k, v] : wide) if (v[0] == c) x = k;
    r.push_back(x);
  }
  return r;
}
// numbers: sign, digits, power of ten; followed modulo primes
using sequant::rational;
static rational part(const json& x) {
  rational r = 0;
  for (auto& d : x["m"]) r = r * 10 + (string(d)[0] - '0');
  for (int e = x["e"]; e < 0; ++e) r /= 10;
  for (int e = x["e"]; e > 0; --e) r *= 10;
  return x["neg"] ? rational(-r) : r;
}
static rational number(const json& c) { return part(c["n"]) / part(c["d"]); }
static const long PR[4] = {46327, 46307, 46279, 46271};
static long pw(long p, long x, long n) { long r = 1; for (; n; n >>= 1, x = x * x % p) if (n & 1) r = r * x % p; return r; }
struct Res {
  long v[4];
  Res(long x = 0) { for (int k = 0; k < 4; ++k) v[k] = ((x % PR[k]) + PR[k]) % PR[k]; }
  Res(const rational& q) {
    for (int k = 0; k < 4; ++k) {
      auto mod = [&](const auto& z) { auto r = z % PR[k]; long s = static_cast<long>(r); return (s + PR[k]) % PR[k]; };
      v[k] = mod(numerator(q)) * pw(PR[k], mod(denominator(q)), PR[k] - 2) % PR[k];
    }
  }
  bool is(long x) const { return j() == Res(x).j(); }
  json j() const { return json::array({v[0], v[1], v[2], v[3]}); }
};
static Res operator*(Res a, const Res& b) { for (int k = 0; k < 4; ++k) a.v[k] = a.v[k] * b.v[k] % PR[k]; return a; }
static Res operator+(Res a, const Res& b) { for (int k = 0; k < 4; ++k) a.v[k] = (a.v[k] + b.v[k]) % PR[k]; return a; }
static Res of(const Constant::scalar_type& s) { if (s.imag() != 0) throw std::runtime_error("a complex number"); return Res(rational(s.real())); }
static Res of(const json& v) { Res r; for (int k = 0; k < 4; ++k) r.v[k] = v[k]; return r; }

// what an expression is
static json label(const Index& i) { return {{"s", chars(i.space().base_key())}, {"o", i.ordinal() ? long(*i.ordinal()) : -1}}; }
static json index(const Index& i) {
  if (!i.nonnull()) return "null index";
  json r = label(i), p = json::array();
  for (auto& x : i.proto_indices()) p.push_back(label(x));
  std::sort(p.begin(), p.end());
  r["pr"] = p;
  return r;
}
template <class R> static json indices(R&& r) { json a = json::array(); for (auto&& i : r) a.push_back(index(i)); return a; }
static json symm(Symmetry s) { return s == Symmetry::Nonsymm ? "N" : s == Symmetry::Antisymm ? "A" : s == Symmetry::Symm ? "S" : "?"; }
static json symm(BraKetSymmetry s) { return s == BraKetSymmetry::Nonsymm ? "N" : s == BraKetSymmetry::Conjugate ? "C" : s == BraKetSymmetry::Symm ? "S" : "?"; }
static json symm(ColumnSymmetry s) { return s == ColumnSymmetry::Nonsymm ? "N" : s == ColumnSymmetry::Symm ? "S" : "?"; }
static json symms(Symmetry p, BraKetSymmetry b, ColumnSymmetry c) { return json::array({symm(p), symm(b), symm(c)}); }
template <class Op> static json oper(const Op& o) {
  json c = json::array(), a = json::array();
  for (auto& x : o.creators()) c.push_back(index(x.index()));
  for (auto& x : o.annihilators()) a.push_back(index(x.index()));
  return {{"k", "o"}, {"l", chars(o.label())}, {"b", a}, {"q", c}};
}
static json sumup(const json& as) {
  json flat = json::array(), rest = json::array();
  for (auto& x : as) if (x["k"] == "+") for (auto& y : x["a"]) flat.push_back(y); else flat.push_back(x);
  Res v(0);
  for (auto& x : flat) {
    if (x["k"] == "c") v = v + of(x["v"]);
    else if (!(x["k"] == "p" && of(x["v"]).is(0))) rest.push_back(x);
  }
  if (!v.is(0)) rest.push_back({{"k", "c"}, {"v", v.j()}});
  if (rest.empty()) return {{"k", "c"}, {"v", Res(0L).j()}};
  return rest.size() == 1 ? rest[0] : json{{"k", "+"}, {"a", rest}};
}
static json dump(const Expr& e) {
  if (e.is<Constant>()) return {{"k", "c"}, {"v", of(e.as<Constant>().value()).j()}};
  if (e.is<Variable>()) return {{"k", "v"}, {"l", chars(e.as<Variable>().label())}, {"cj", e.as<Variable>().conjugated()}};
  if (e.is<Power>()) { auto& p = e.as<Power>(); return {{"k", "^"}, {"b", dump(*p.base())}, {"e", Res(p.exponent()).j()}, {"cj", p.conjugated()}}; }
  if (e.is<Tensor>()) {
    auto& t = e.as<Tensor>();
    return {{"k", "t"}, {"l", chars(t.label())}, {"b", indices(t.bra())}, {"q", indices(t.ket())}, {"x", indices(t.aux())}, {"sy", symms(t.symmetry(), t.braket_symmetry(), t.column_symmetry())}};
  }
  if (e.is<FNOperator>()) return oper(e.as<FNOperator>());
  if (e.is<BNOperator>()) return oper(e.as<BNOperator>());
  if (e.is<Product>()) {
    Res v = of(e.as<Product>().scalar());
    json f = json::array();
    for (auto& x : e.as<Product>().factors()) {
      auto d = dump(*x);
      if (d["k"] == "c") v = v * of(d["v"]); else f.push_back(d);
    }
    if (f.empty()) return {{"k", "c"}, {"v", v.j()}};
    if (f.size() == 1 && v.is(1)) return f[0];
    return {{"k", "p"}, {"v", v.j()}, {"f", f}};
  }
  if (e.is<Sum>()) {
    json a = json::array();
    for (auto& x : e.as<Sum>().summands()) a.push_back(dump(*x));
    return sumup(a);
  }
  return {{"k", "unknown kind"}};
}
static json dump(const ExprPtr& e) { return e ? dump(*e) : json{{"k", "none"}}; }
static json dump(const ResultExpr& r) {
  json l = {{"k", "v"}, {"l", r.has_label() ? chars(r.label()) : json("none")}};
  if (r.produces_tensor()) l = {{"k", "t"}, {"l", chars(r.label())}, {"b", indices(r.bra())}, {"q", indices(r.ket())}, {"x", indices(r.aux())}, {"sy", symms(r.symmetry(), r.braket_symmetry(), r.column_symmetry())}};
  return {{"k", "="}, {"l", l}, {"r", dump(r.expression())}};
}

static Index mk(const json& x) {
  auto space = [](const json& s) { return get_default_context().index_space_registry()->retrieve(text(s)); };
  container::vector<Index> pr;
  if (x.contains("pr")) for (auto& p : x["pr"]) pr.push_back(Index(space(p["s"]), size_t(p["o"])));
  return pr.empty() ? Index(space(x["s"]), size_t(x["o"])) : Index(space(x["s"]), size_t(x["o"]), pr);
}
static vector<Index> mks(const json& l) { vector<Index> r; for (auto& x : l) r.push_back(mk(x)); return r; }
static Symmetry psym(const string& s) { return s == "A" ? Symmetry::Antisymm : s == "S" ? Symmetry::Symm : Symmetry::Nonsymm; }
static BraKetSymmetry bsym(const string& s) { return s == "N" ? BraKetSymmetry::Nonsymm : s == "C" ? BraKetSymmetry::Conjugate : BraKetSymmetry::Symm; }
static ColumnSymmetry csym(const string& s) { return s == "N" ? ColumnSymmetry::Nonsymm : ColumnSymmetry::Symm; }
static ExprPtr build(const json& t) {
  string k = t["k"];
  if (k == "c") return ex<Constant>(number(t));
  if (k == "v") { auto v = ex<Variable>(text(t["l"])); if (t["cj"]) v->as<Variable>().conjugate(); return v; }
  if (k == "^") { auto v = ex<Power>(build(t["b"]), number(t["e"])); if (t["cj"]) v->as<Power>().conjugate(); return v; }
  if (k == "t") {
    string l = t["l"].size() == 1 ? string(t["l"][0]) : t["l"].size() == 2 ? string(t["l"][0]) + string(t["l"][1]) : "";
    if (l == "a" || l == "%") return ex<FNOperator>(cre(mks(t["q"])), ann(mks(t["b"])), l == "a" ? Vacuum::Physical : Vacuum::SingleProduct);
    if (l == "b" || l == "b~") return ex<BNOperator>(cre(mks(t["q"])), ann(mks(t["b"])), l == "b" ? Vacuum::Physical : Vacuum::SingleProduct);
    return ex<Tensor>(text(t["l"]), bra(mks(t["b"])), ket(mks(t["q"])), aux(mks(t["x"])), psym(t["sy"][0]), bsym(t["sy"][1]), csym(t["sy"][2]));
  }
  if (k == "p") {
    Product p;
    for (auto& f : t["f"]) p.append(1, build(f), Fl::No);
    return ex<Product>(std::move(p));
  }
  Sum s;
  for (auto& f : t["a"]) s.append(build(f));
  return ex<Sum>(s);
}
static ResultExpr result(const json& t) {
  auto l = build(t["l"]);
  return l.is<Tensor>() ? ResultExpr(l.as<Tensor>(), build(t["r"])) : ResultExpr(l.as<Variable>(), build(t["r"]));
}
// the same without any normalisation
static string raw(const Expr& e) {
  string s = e.type_name();
  if (e.is<Product>()) { s += of(e.as<Product>().scalar()).j().dump(); }
  if (e.is<Product>() || e.is<Sum>()) { s += "("; for (auto& x : e) s += raw(*x) + " "; return s + ")"; }
  return s + dump(e).dump();
}
// of equal structure, so equal
static bool same(const ExprPtr& a, const ExprPtr& b) { return raw(*a) != raw(*b) || (*a == *b && a->hash_value() == b->hash_value()); }

struct Machine {
  json step(const json& op) {
    if (op["op"] == "write") {
      bool res = op["what"] == "result";
      if (res) {
        auto r = result(op["t"]);
        auto w = ser::to_string(r);
        auto r2 = ser::from_string<ResultExpr>(std::wstring_view(w));
        return {{"t", dump(r)}, {"again", dump(r2)}, {"equal", same(r.expression(), r2.expression()) && (raw(*r.expression()) != raw(*r2.expression()) || !(r.produces_tensor() || op["t"]["l"]["k"] == "v") || r == r2)}, {"text", u8(w)}};
      }
      auto e = build(op["t"]);
      auto w = ser::to_string(e);
      auto e2 = ser::from_string<ExprPtr>(std::wstring_view(w));
      return {{"t", dump(e)}, {"again", dump(e2)}, {"equal", same(e, e2)}, {"text", u8(w)}};
    }
    auto w = text(op["text"]);
    auto& o = op["opts"];
    ser::DeserializationOptions opt;
    if (o[0] != "") opt.def_perm_symm = psym(o[0]);
    if (o[1] != "") opt.def_braket_symm = bsym(o[1]);
    if (o[2] != "") opt.def_col_symm = csym(o[2]);
    try {
      json d = op["what"] == "result" ? dump(ser::from_string<ResultExpr>(std::wstring_view(w), opt)) : dump(ser::from_string<ExprPtr>(std::wstring_view(w), opt));
      return {{"r", "ok"}, {"t", d}, {"done", true}};
    } catch (const ser::SerializationError& x) {
      return {{"r", "reject"}, {"why", x.what()}, {"done", true}};
    } catch (const std::exception& x) {
      return {{"r", string("other exception: ") + x.what()}, {"done", true}};
    }
  }
};
int main(int argc, char** argv) {
  auto reg = std::make_shared<IndexSpaceRegistry>();
  reg->add(L"i", 0b0001).add(L"a", 0b0010).add(L"p", 0b0100).add(L"K", 0b1000).add(L"i↑", 0b10000).add(L"i↓", 0b100000).add(L"m⁺", 0b1000000);
  set_default_context({.index_space_registry_shared_ptr = reg, .vacuum = Vacuum::SingleProduct, .spbasis = SPBasis::Spinor, .first_dummy_index_ordinal = 100});
  return replay_main(argc, argv, {"pr"}, [] { return std::make_unique<Machine>(); });
}
