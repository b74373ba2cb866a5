// Replays behaviours of spec/Scalars.tla, Costs.tla and Combinatorics.tla:
// exact scalars, symbolic costs, permutations, subsets and factorials.
#include <SeQuant/core/algorithm.hpp>
#include <SeQuant/core/asy_cost.hpp>
#include <SeQuant/core/complex.hpp>
#include <SeQuant/core/math.hpp>
#include <SeQuant/core/rational.hpp>
#include <SeQuant/core/utility/permutation.hpp>
#include <barrier>
#include <thread>
#include "replay.hpp"
using namespace vf;
namespace {
const long primes[] = {46327, 46307, 46279, 46271};
using Z = Constant::scalar_type;
int N(const json& o, const char* k) { return o.at(k).get<int>(); }
// of the decimal digits of a number, since arithmetic is what is examined
long residue(const string& digits, long p) {
  long r = 0;
  bool neg = false;
  for (char c : digits) {
    if (c == '-') neg = true;
    else if (c >= '0' && c <= '9') r = (r * 10 + (c - '0')) % p;
    else throw std::runtime_error("not a number: " + digits);
  }
  return neg ? (p - r) % p : r;
}
long power(long x, long n, long p) { long r = 1; for (; n; n /= 2, x = x * x % p) if (n % 2) r = r * x % p; return r; }
json residues(const string& text) {
  auto bar = text.find('/');
  string num = text.substr(0, bar), den = bar == string::npos ? "1" : text.substr(bar + 1);
  json r = json::array();
  for (long p : primes) {
    long d = residue(den, p);
    if (d == 0) return "no inverse";
    r.push_back(residue(num, p) * power(d, p - 2, p) % p);
  }
  return r;
}
string text(const rational& q) { return sequant::to_string(q); }
// {\frac{..}{..}} and the like, to num/den
string untex(const wstring& t) {
  string s;
  for (wchar_t c : t) s += char(c);
  auto strip = [](string s) { while (s.size() > 1 && s.front() == '{' && s.back() == '}') s = s.substr(1, s.size() - 2); return s; };
  s = strip(s);
  string sign;
  if (!s.empty() && s[0] == '-') { sign = "-"; s = strip(s.substr(1)); }
  if (s.rfind("\\frac{", 0) == 0) {
    auto m = s.find("}{");
    if (m == string::npos || s.back() != '}') return "?" + s;
    s = s.substr(6, m - 6) + "/" + s.substr(m + 2, s.size() - m - 3);
  }
  if (s.find_first_not_of("0123456789/-") != string::npos) return "?" + s;
  return sign + s;
}
json see(const vector<Z>& reg) {
  json r;
  for (auto k : {"re", "im", "eq", "hash", "latex", "text", "cloned", "zero", "one", "real"}) r[k] = json::array();
  auto classes = [&](const char* key, auto same) {
    for (size_t k = 0; k < reg.size(); ++k) {
      size_t j = 0;
      while (j < k && !same(j, k)) ++j;
      r[key].push_back(j + 1);
    }
  };
  vector<Constant> c;
  vector<ExprPtr> e;
  for (auto& z : reg) { c.emplace_back(z); e.push_back(ex<Constant>(z)); }
  for (auto& z : reg) {
    r["re"].push_back(residues(text(z.real())));
    r["im"].push_back(residues(text(z.imag())));
    r["zero"].push_back(z.is_zero() && Constant::is_zero(z) && Constant(z).is_zero() && z == 0 && 0 == z && z == rational(0) && !(z != 0));
    if (!r["zero"].back().get<bool>() && (z.is_zero() || Constant(z).is_zero() || z == 0 || z == rational(0))) r["zero"].back() = "of two minds";
    r["one"].push_back(z.is_identity() && z == 1 && z == rational(1));
    if (!r["one"].back().get<bool>() && (z.is_identity() || z == 1 || z == rational(1))) r["one"].back() = "of two minds";
    r["real"].push_back(z.imag() == 0);
    // as floating-point numbers, of any size
    for (auto* q : {&z.re, &z.im}) {
      auto t = text(*q);
      auto bar = t.find('/');
      long double want = std::strtold(t.c_str(), nullptr) / (bar == string::npos ? 1.0L : std::strtold(t.c_str() + bar + 1, nullptr));
      if (!(std::fabs(want) < 1e300L) || (want != 0 && std::fabs(want) < 1e-300L)) continue;
      auto close = [&](double v) { return std::fabs(v - want) <= 1e-14L * std::fabs(want); };
      if (!close(Constant(*q).value<double>()) || !close(Constant(Z(1, *q)).value<std::complex<double>>().imag())) r["real"].push_back("converts " + t);
    }
    // the printed form reads as the number
    for (auto* q : {&z.re, &z.im}) {
      auto u = untex(io::latex::to_string(*q));
      if (residues(text(*q)) != residues(u)) r["latex"].push_back("prints " + text(*q) + " as " + u);
      string w;
      for (wchar_t x : to_wstring(*q)) w += char(x);
      if (w != text(*q)) r["text"].push_back("prints " + text(*q) + " as " + w);
      if (residues(sequant::to_string(numerator(*q)) + "/" + sequant::to_string(denominator(*q))) != residues(text(*q)) || denominator(*q) <= 0) r["text"].push_back("parts of " + text(*q));
    }
  }
  classes("eq", [&](size_t j, size_t k) {
    bool s = reg[j] == reg[k];
    for (bool b : {reg[k] == reg[j], !(reg[j] != reg[k]), c[j] == c[k], *e[j] == *e[k], e[j] == e[k]}) if (b != s) return k % 2 == 0;
    return s;
  });
  for (size_t k = 0; k < reg.size(); ++k) {
    bool ok = true;
    for (size_t j = 0; j <= k; ++j)
      if (text(reg[j].re) == text(reg[k].re) && text(reg[j].im) == text(reg[k].im))
        ok = ok && hash::value(reg[j]) == hash::value(reg[k]) && reg[j].hash_value() == reg[k].hash_value() && c[j].hash_value() == c[k].hash_value() && e[j]->hash_value() == e[k]->hash_value();
    r["hash"].push_back(ok);
  }
  classes("latex", [&](size_t j, size_t k) {
    bool s = reg[j].to_latex() == reg[k].to_latex();
    return (c[j].to_latex() == c[k].to_latex()) == s && (e[j]->to_latex() == e[k]->to_latex()) == s ? s : k % 2 == 0;
  });
  classes("text", [&](size_t j, size_t k) { return text(reg[j].re) == text(reg[k].re) && text(reg[j].im) == text(reg[k].im); });
  classes("cloned", [&](size_t j, size_t k) { return *e[j]->clone() == *e[k] && e[j]->clone()->hash_value() == e[k]->hash_value(); });
  return r;
}
string digits(const json& d, bool neg = false) { string s = neg ? "-" : ""; for (auto& x : d) s += char('0' + x.get<int>()); return s; }
rational frac(const json& f) { return rational(N(f, "n"), N(f, "d")); }

// ---- costs ----
const vector<IndexSpace>& spaces() {
  static vector<IndexSpace> s{{L"O", 1, 0, 2}, {L"V", 2, 0, 3}, {L"(aux)", 4, 0, 4}};
  return s;
}
AsyCost::ExponentMap exponents(const json& m, bool all = true) {
  AsyCost::ExponentMap r;
  for (int k = 0; k < 3; ++k) if (all || m[k] != 0) r.emplace(spaces()[k], m[k].get<size_t>());
  return r;
}
rational coef(const json& q) { return rational(q[0].get<int>(), q[1].get<int>()); }
// the terms of a printed cost
json terms(string s, bool tex) {
  json r = json::array();
  if (s == "0") return r;
  if (s == "max" || s == "\\texttt{max}") return "max";
  while (true) {
    auto end = s.find(" + ");
    string t = s.substr(0, end);
    int sign = 1, num = 1, den = 1;
    if (t.rfind("- ", 0) == 0) { sign = -1; t = t.substr(2); }
    auto number = [&] { size_t n = 0; int v = 0; while (n < t.size() && isdigit(t[n])) v = v * 10 + (t[n++] - '0'); t = t.substr(n); return n ? v : -1; };
    if (tex && t.rfind("\\frac{", 0) == 0) {
      t = t.substr(6); num = number();
      if (t.rfind("}{", 0) != 0) return "?" + t;
      t = t.substr(2); den = number();
      if (t.rfind("}", 0) != 0) return "?" + t;
      t = t.substr(1);
    } else if (isdigit(t[0])) {
      num = number();
      if (!tex && t[0] == '/') { t = t.substr(1); den = number(); }
      if (!tex) { if (t[0] != '*') return "?" + t; t = t.substr(1); }
    }
    json m{0, 0, 0};
    int last = -1;
    while (!t.empty()) {
      int k = 0;
      const char* keys[] = {"O", "V", "(aux)"};
      while (k < 3 && t.rfind(keys[k], 0) != 0) ++k;
      if (k == 3 || k <= last) return "?" + t;
      last = k;
      t = t.substr(string(keys[k]).size());
      int e = 1;
      if (!t.empty() && t[0] == '^') {
        t = t.substr(1);
        if (tex) { if (t[0] != '{') return "?" + t; t = t.substr(1); }
        e = number();
        if (tex) { if (t[0] != '}') return "?" + t; t = t.substr(1); }
        if (e < 2) return "exponent " + std::to_string(e);
      }
      m[k] = e;
    }
    r.push_back({{"c", {sign * num, den}}, {"m", m}});
    if (end == string::npos) break;
    s = s.substr(end + 3);
  }
  return r;
}
json see(const vector<AsyCost>& reg) {
  json r;
  for (size_t k = 0; k < reg.size(); ++k) {
    auto x = reg[k].text();
    string y;
    for (wchar_t c : reg[k].to_latex()) y += char(c);
    bool max = x == "max" && y == "\\texttt{max}";
    r["max"].push_back(max);
    r["text"].push_back(max ? json::array() : terms(x, false));
    r["latex"].push_back(max ? json::array() : terms(y, true));
    r["zero"].push_back(reg[k] == AsyCost::zero());
    for (size_t j = 0; j < reg.size(); ++j) {
      auto &a = reg[k], &b = reg[j];
      int c = a < b ? -1 : a == b ? 0 : 1;
      bool ok = (a == b) == (c == 0) && (a != b) == (c != 0) && (a < b) == (c < 0) && (a > b) == (c > 0) && (a <= b) == (c <= 0) && (a >= b) == (c >= 0);
      r["cmp"][k][j] = ok ? json(c) : json("of two minds");
    }
  }
  return r;
}

// ---- sorting by swaps ----
int swaps = 0;
struct Item {
  int v, at;
  friend void swap(Item& a, Item& b) { ++swaps; std::swap(a.v, b.v); std::swap(a.at, b.at); }
  bool operator<(const Item& o) const { return v < o.v; }
};
template <class F> void together(int threads, F f) {
  if (threads == 1) { f(0); return; }
  std::barrier start(threads);
  vector<std::thread> t;
  for (int k = 0; k < threads; ++k) t.emplace_back([&, k] { start.arrive_and_wait(); f(k); });
  for (auto& x : t) x.join();
}

struct Machine {
  vector<Z> reg{Z(1), Z(0, 1), Z(rational(2, 3)), Z(rational(-1, 2), rational(3))};
  vector<AsyCost> cost{AsyCost{}, AsyCost{}, AsyCost{}};
  json more{{"done", true}};
  json step(const json& op) {
    more = json{{"done", true}};
    if (op["see"].contains("regs")) {
      if (op["see"]["regs"].contains("cmp")) { costs(op); return {{"regs", see(cost)}, {"more", more}}; }
      scalars(op);
      return {{"regs", see(reg)}, {"more", more}};
    }
    return combinatorics(op);
  }
  void scalars(const json& op) {
    string o = op["op"], how = op.value("how", "");
    auto dst = [&]() -> Z& { return reg[N(op, "dst") - 1]; };
    auto A = [&]() -> Z& { return reg[N(op, "a") - 1]; };
    auto B = [&]() -> Z& { return reg[N(op, "b") - 1]; };
    if (o == "lit") {
      int n = N(op, "n"), d = N(op, "d"), m = N(op, "m"), e = N(op, "e");
      if (how == "ints") dst() = m ? Z(n, m) : Z(n);
      else if (how == "constant") dst() = m ? Constant(Z(n, m)).value() : Constant(n).value();
      else if (how == "quotient") dst() = Z(rational(n) / d, rational(m) / rational(e));
      else if (how == "string") dst() = Z(rational(std::to_string(n) + "/" + std::to_string(d)), rational(std::to_string(m) + "/" + std::to_string(e)));
      else dst() = Z(rational(n, d), rational(m, e));
    } else if (o == "big") {
      rational x(digits(op["a"], op["s"]) + "/" + digits(op["b"])), y(digits(op["c"], op["t"]) + "/" + digits(op["e"]));
      dst() = op["im"].get<bool>() ? Z(x, y) : Z(x);
    } else if (o == "add" || o == "sub" || o == "mul") {
      Z &a = A(), &b = B();
      if (how == "assign") {
        // in place, possibly of one and the same number
        bool same = &a == &b;
        Z t = a;
        Z& rhs = same ? t : b;
        if (o == "add") t += rhs; else if (o == "sub") t -= rhs; else t *= rhs;
        dst() = t;
      } else if (how == "constant") {
        Constant x(a), y(b);
        (void)x.hash_value();
        Constant& rhs = &a == &b ? x : y;
        if (o == "add") x += rhs; else if (o == "sub") x -= rhs; else x *= rhs;
        if (x.hash_value() != Constant(x.value()).hash_value()) throw std::runtime_error("stale hash");
        dst() = x.value();
      } else if (how == "scalar") {
        Z t = a;
        rational s = b.real();
        if (o == "add") t += s; else if (o == "sub") t -= s; else { t *= s; if (t != a * s || t != s * a) throw std::runtime_error("scaled in two ways"); }
        dst() = t;
      } else if (how == "left" && o == "mul") { Z t = a.real() * b; dst() = t; }
      else { Z t = o == "add" ? a + b : o == "sub" ? a - b : a * b; dst() = t; }
    } else if (o == "div") {
      Z t = how == "left" ? A().real() / B() : A() / B();
      dst() = t;
    } else if (o == "neg") { Z t = how == "constant" ? (Constant(-1) *= Constant(A())).as<Constant>().value() : -A(); dst() = t; }
    else if (o == "conj") {
      Z t = conj(A());
      if (how == "constant") { Constant c(A()); (void)c.hash_value(); c.adjoint(); if (c.hash_value() != Constant(c.value()).hash_value()) throw std::runtime_error("stale hash"); t = c.value(); }
      dst() = t;
    } else if (o == "norm") { rational t = norm_squared(A()); dst() = Z(t); }
    else if (o == "copy") { Z t = +A(); dst() = t; }
    else if (o == "pow") {
      ExprPtr p = ex<Power>(ex<Constant>(A()), rational(N(op, "n")));
      if (op["conj"]) p->adjoint();
      flatten(p);
      if (p->is<Constant>()) dst() = p->as<Constant>().value();
      more["kind"] = p->is<Constant>() ? "const" : "other";
    } else if (o == "sym") {
      auto base = op["var"].get<bool>() ? ex<Variable>(L"v") : ex<Constant>(Z(rational(N(op, "n"), N(op, "d")), rational(N(op, "m"))));
      bool c = op["conj"];
      auto make = [&](const json& e) { auto p = ex<Power>(base, frac(e)); (void)p->hash_value(); if (c) p->adjoint(); return p; };
      auto p = make(op["e1"]);
      if (how == "two") p->as<Power>() *= *make(op["e2"]);
      if (how == "bare") { auto b = base->clone(); if (c) b->adjoint(); p->as<Power>() *= *b; }
      auto q = p->clone();
      if (!(*q == *p) || q->hash_value() != p->hash_value()) throw std::runtime_error("clone differs");
      more["zero"] = p->is_zero();
      flatten(p);
      more["kind"] = p->is<Constant>() ? "const" : p->is<Variable>() ? "var" : "power";
      more["e"] = {{"n", 0}, {"d", 1}};
      more["conj"] = false;
      if (p->is<Constant>()) dst() = p->as<Constant>().value();
      else if (p->is<Variable>()) more["conj"] = p->as<Variable>().conjugated();
      else {
        auto& w = p->as<Power>();
        more["conj"] = w.conjugated();
        more["e"] = {{"n", static_cast<int>(numerator(w.exponent()))}, {"d", static_cast<int>(denominator(w.exponent()))}};
        if (!(*w.base() == *base)) more["kind"] = "another base";
      }
    } else if (o == "float") {
      double x = std::ldexp(double(N(op, "n")), -N(op, "s")), eps = std::ldexp(1.0, -N(op, "t"));
      bool exact = op["exact"];
      rational q = exact ? to_rational(x, 0.0) : to_rational(x, eps), want(N(op, "n"), 1 << N(op, "s"));
      if (exact) dst() = Z(q);
      rational diff = q < want ? want - q : q - want;
      more["near"] = diff <= (exact ? rational(0) : rational(1, 1 << N(op, "t")));
      if (N(op, "s") == 0 && to_rational(N(op, "n")) != want) more["near"] = "integer";
      if (float f = float(x); double(f) == x && to_rational(f, 0.0f) != want) more["near"] = "float";
    } else if (o == "cast") {
      Constant c(rational(N(op, "n"), N(op, "d")));
      auto cast = [&](auto t) -> json {
        using T = decltype(t);
        try { return c.value<T>() == T(N(op, "n")) && N(op, "d") == 1 && (std::is_signed_v<T> || N(op, "n") >= 0) ? json(true) : json("wrong number"); } catch (const std::exception&) { return false; }
      };
      more["int"] = cast(int()); more["byte"] = cast((signed char)0); more["unsigned"] = cast(0ul);
      more["half"] = std::fabs(c.value<double>() - double(N(op, "n")) / N(op, "d")) < 1e-12 && c.value<std::complex<double>>() == std::complex<double>(c.value<double>());
    } else if (o == "order") {
      rational a = frac(op["a"]), b = frac(op["b"]);
      more["less"] = a < b; more["same"] = a == b;
      if ((a < b) != (b > a) || (a <= b) != !(b < a) || (hash::value(a) == hash::value(b)) != (a == b)) more["less"] = "of two minds";
    } else throw std::runtime_error("unknown " + o);
  }
  void costs(const json& op) {
    string o = op["op"];
    auto at = [&](const char* k) -> AsyCost& { return cost[N(op, k) - 1]; };
    if (o == "term") at("dst") = AsyCost(exponents(op["m"], op["how"] == "all"), coef(op["q"]));
    else if (o == "plus" || o == "minus") {
      if (op["inplace"]) { if (o == "plus") at("dst") += at("b"); else at("dst") -= at("b"); }
      else { auto r = o == "plus" ? at("a") + at("b") : at("a") - at("b"); at("dst") = r; }
    } else if (o == "more") { AsyCost t(exponents(op["m"]), coef(op["q"])); if (op["minus"]) at("dst") -= t; else at("dst") += t; }
    else if (o == "scale") {
      auto q = coef(op["q"]);
      string how = op["how"];
      auto r = how == "left" ? q * at("a") : how == "right" ? at("a") * q : at("a") / q;
      at("dst") = r;
    } else if (o == "max") { if (op["see"]["regs"]["max"][N(op, "dst") - 1]) at("dst") = AsyCost::max(); else at("dst") = AsyCost::zero(); }
    else if (o == "copy") { auto r = at("a"); at("dst") = r; }
    else if (o == "eval") {
      AsyCost::ExtentMap ext;
      for (auto& s : op["given"]) { int k = s.get<int>() - 1; ext.emplace(spaces()[k], op["ext"][k].get<size_t>()); }
      double v = at("a").ops(ext);
      auto want = op["see"]["more"]["value"];
      double n = want[0], d = want[1];
      more = json{};
      if (d == 0 ? std::isinf(v) && v > 0 : std::fabs(v * d - n) <= 1e-9 * std::max(1.0, std::fabs(n))) more["value"] = want; else more["value"] = v;
    } else throw std::runtime_error("unknown " + o);
  }
  json combinatorics(const json& op) {
    string o = op["op"];
    auto ints = [&](const char* k) { return op[k].get<vector<int>>(); };
    if (o == "parity") {
      string how = op["how"];
      auto go = [&](auto v) -> json {
        using T = typename decltype(v)::value_type;
        auto w = v;
        int s = permutation_parity(std::span<T>(w), how == "overwrite");
        return {{"sign", s}, {"p", how == "overwrite" ? json(v) : json(w)}};
      };
      return how == "size_t" ? go(op["p"].get<vector<size_t>>()) : go(ints("p"));
    }
    if (o == "next" || o == "multi") {
      auto p = ints("p");
      int parity = op.value("odd", false);
      bool m = next_permutation_parity(parity, p.begin(), p.end());
      json r{{"more", m}, {"p", p}};
      if (o == "next") r["odd"] = parity != 0;
      // in the opposite order, of the negatives
      auto q = ints("p");
      for (auto& x : q) x = -x;
      int par2 = op.value("odd", false);
      bool m2 = next_permutation_parity(par2, q.begin(), q.end(), std::greater<>{});
      for (auto& x : q) x = -x;
      if (m2 != m || q != p || par2 != parity) r["p"] = "depends on the order given";
      return r;
    }
    if (o == "all") {
      vector<int> p(N(op, "n"));
      for (size_t k = 0; k < p.size(); ++k) p[k] = k;
      int parity = 0;
      json r{{"perms", json::array()}, {"odd", json::array()}};
      do { r["perms"].push_back(p); r["odd"].push_back(parity != 0); } while (next_permutation_parity(parity, p.begin(), p.end()));
      return r;
    }
    if (o == "cycles") return {{"n", count_cycles(ints("v"), ints("w"))}};
    if (o == "sort") {
      auto p = ints("p");
      vector<Item> v;
      for (auto x : p) v.push_back({x, int(v.size())});
      swaps = 0;
      bubble_sort(v.begin(), v.end());
      bool stable = true;
      vector<int> out;
      for (size_t k = 0; k < v.size(); ++k) { out.push_back(v[k].v); if (k && v[k - 1].v == v[k].v && v[k - 1].at > v[k].at) stable = false; }
      int n = swaps;
      return {{"p", out}, {"swaps", n}, {"stable", stable}, {"odd", n % 2 == 1}};
    }
    if (o == "factorial") {
      auto n = ints("n");
      int T = N(op, "threads");
      vector<json> r(T);
      together(T, [&](int t) { for (auto x : n) { string s = sequant::to_string(factorial(x)); json l = json::array(); for (long p : primes) l.push_back(residue(s, p)); r[t].push_back(l); } });
      for (auto& x : r) if (x != r[0]) return {{"all", "threads disagree"}};
      return {{"all", r[0]}};
    }
    if (o == "bits") {
      unsigned m = N(op, "mask");
      json r{{"asc", json::array()}, {"desc", json::array()}, {"pairs", json::array()}, {"half", json::array()}, {"on", json::array()}};
      for (auto x : bits::subsets_ascending(m)) r["asc"].push_back(x);
      for (auto x : bits::subsets_descending(m)) r["desc"].push_back(x);
      for (auto [a, b] : bits::bipartitions_ordered(m)) r["pairs"].push_back({a, b});
      for (auto [a, b] : bits::bipartitions(m)) r["half"].push_back({a, b});
      for (auto x : bits::on_bits_index(m)) r["on"].push_back(x);
      json s = json::array();
      vector<int> id{0, 1, 2, 3, 4, 5, 6, 7, 8, 9};
      for (auto x : bits::on_bits_index(m) | bits::sieve(id)) s.push_back(x);
      if (s != r["on"]) r["on"] = "sieve";
      json u = json::array();
      for (auto x : bits::subsets(m)) u.push_back(x);
      if (u != r["asc"]) r["asc"] = "subsets";
      return r;
    }
    throw std::runtime_error("unknown " + o);
  }
  void flatten(ExprPtr& p) { Power::flatten(p); }
};
}  // namespace
int main(int argc, char** argv) {
  return replay_main(argc, argv, {"given"}, [] { return std::make_unique<Machine>(); });
}
