// Shared by the conformance drivers: random numbers, output of expressions as
// JSON in the form the specification module TensorAlgebra reads.
#pragma once
#include <SeQuant/core/context.hpp>
#include <SeQuant/core/expr.hpp>
#include <SeQuant/core/index.hpp>
#include <SeQuant/core/index_space_registry.hpp>
#include <SeQuant/core/op.hpp>
#include <SeQuant/core/reserved.hpp>
#include <SeQuant/core/runtime.hpp>
#include <SeQuant/core/tensor_canonicalizer.hpp>

#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <functional>
#include <map>
#include <sstream>
#include <string>
#include <vector>

namespace vf {
using namespace sequant;
using std::size_t;
using std::string;
using std::vector;
using std::wstring;

inline string u8(std::wstring_view w) {
  string r;
  for (wchar_t wc : w) {
    auto c = static_cast<uint32_t>(wc);
    if (c < 0x80) r += char(c);
    else if (c < 0x800) { r += char(0xC0 | (c >> 6)); r += char(0x80 | (c & 63)); }
    else if (c < 0x10000) { r += char(0xE0 | (c >> 12)); r += char(0x80 | ((c >> 6) & 63)); r += char(0x80 | (c & 63)); }
    else { r += char(0xF0 | (c >> 18)); r += char(0x80 | ((c >> 12) & 63)); r += char(0x80 | ((c >> 6) & 63)); r += char(0x80 | (c & 63)); }
  }
  return r;
}
inline wstring w32(std::string_view s) {
  wstring r;
  for (size_t i = 0; i < s.size();) {
    unsigned char c = s[i];
    int n = c < 0x80 ? 0 : c < 0xE0 ? 1 : c < 0xF0 ? 2 : 3;
    uint32_t v = n == 0 ? c : n == 1 ? c & 31 : n == 2 ? c & 15 : c & 7;
    for (int k = 1; k <= n && i + k < s.size(); ++k) v = (v << 6) | (static_cast<unsigned char>(s[i + k]) & 63);
    i += n + 1;
    r += wchar_t(v);
  }
  return r;
}
// JSON string; only ASCII goes out (TLC's reader and printer are kept simple)
inline string js(std::string_view s) {
  string r = "\"";
  for (char ch : s) {
    unsigned char c = ch;
    if (c == '"' || c == '\\') { r += '\\'; r += ch; }
    else if (c < 0x20) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += ch;
  }
  return r + "\"";
}
inline string js(std::wstring_view w) { return js(u8(w)); }
template <class V, class F>
string jlist(const V& v, F f) {
  string r = "[";
  bool first = true;
  for (auto&& x : v) { if (!first) r += ','; first = false; r += f(x); }
  return r + "]";
}
template <class V>
string jints(const V& v) { return jlist(v, [](auto x) { return std::to_string(x); }); }

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  size_t below(size_t n) { return n ? next() % n : 0; }
  int range(int lo, int hi) { return lo + int(below(hi - lo + 1)); }
  bool chance(int pct) { return int(below(100)) < pct; }
  template <class V> auto& pick(V& v) { return v[below(v.size())]; }
  template <class V> const auto& pick(const V& v) { return v[below(v.size())]; }
  template <class V> void shuffle(V& v) { for (size_t i = v.size(); i > 1; --i) { auto j = below(i); using std::swap; swap(v[i - 1], v[j]); } }
};

constexpr int P = 46337;
// label -> number in 1..9999
inline int label_hash(std::wstring_view l) {
  uint64_t h = 1469598103934665603ull;
  for (char c : u8(l)) { h ^= static_cast<unsigned char>(c); h *= 1099511628211ull; }
  return int(h % 9999) + 1;
}

// orbital ranges of the spaces: base type bit -> number of orbitals
// an index runs over lo+1..lo+n
struct Range { int lo, n; };

// numbers the indices of one case
struct IdxTable {
  std::function<Range(const Index&)> range;
  std::map<wstring, int> num;
  vector<string> rows;
  explicit IdxTable(std::function<Range(const Index&)> r) : range(std::move(r)) {}
  static wstring key(const Index& i) {
    wstring k = wstring(i.label());
    k += L'@'; k += std::to_wstring(i.space().type().to_int32()) + L"/" + std::to_wstring(i.space().qns().to_int32());
    if (i.has_proto_indices()) { k += L"<"; for (auto& p : i.proto_indices()) k += key(p) + L","; k += L">"; }
    return k;
  }
  int operator()(const Index& i) {
    if (!i.nonnull()) return 0;
    auto k = key(i);
    auto it = num.find(k);
    if (it != num.end()) return it->second;
    vector<int> pr;
    for (auto& p : i.proto_indices()) pr.push_back((*this)(p));
    Range r = range(i);
    rows.push_back("{\"lo\":" + std::to_string(r.lo) + ",\"n\":" + std::to_string(r.n) + ",\"pr\":" + jints(pr) + "}");
    int n = int(rows.size());
    num[k] = n;
    return n;
  }
  string json() const { return jlist(rows, [](auto& s) { return s; }); }
};

template <class I> long big_mod(const I& v) {
  I m = v % I(P);
  long r = long(static_cast<long long>(m));
  return (r + P) % P;
}
template <class R> string jfrac(const R& r) {
  return "[" + std::to_string(big_mod(numerator(r))) + "," + std::to_string(big_mod(denominator(r))) + "]";
}
template <class C> string jscalar(const C& c) {
  return "{\"re\":" + jfrac(c.real()) + ",\"im\":" + jfrac(c.imag()) + "}";
}
inline const char* sym_name(Symmetry s) { return s == Symmetry::Antisymm ? "A" : s == Symmetry::Symm ? "S" : "N"; }
inline const char* bk_name(BraKetSymmetry s) { return s == BraKetSymmetry::Symm ? "S" : s == BraKetSymmetry::Conjugate ? "C" : "N"; }

inline string jexpr(const Expr& e, IdxTable& t);
inline string jexpr(const ExprPtr& e, IdxTable& t) { return jexpr(*e, t); }
inline string jtensor(const AbstractTensor& x, std::wstring_view label, bool op, IdxTable& t) {
  auto ids = [&](auto&& r) { vector<int> v; for (auto&& i : r) v.push_back(t(i)); return v; };
  bool adj = !label.empty() && label.back() == sequant::adjoint_label;
  if (adj) label.remove_suffix(1);
  string r = "{\"k\":\"t\",\"h\":" + std::to_string(label_hash(label)) + ",\"b\":" + jints(ids(x._bra())) + ",\"q\":" + jints(ids(x._ket())) +
             ",\"x\":" + jints(ids(x._aux())) + ",\"sym\":\"" + sym_name(x._symmetry()) + "\",\"bk\":\"" +
             bk_name(x._braket_symmetry()) + "\",\"cs\":" + (x._column_symmetry() == ColumnSymmetry::Symm ? "true" : "false") +
             ",\"dl\":" + (label == reserved::overlap_label() || label == reserved::kronecker_label() ? "true" : "false") + ",\"l\":" + js(label) + ",\"op\":" + (op ? "true" : "false") + ",\"adj\":" + (adj ? "true" : "false") + "}";
  return r;
}
// names standing for other expressions: a program's definitions
struct Definition { vector<Index> formals; ExprPtr body; };
inline std::map<wstring, Definition>& definitions() { static std::map<wstring, Definition> d; return d; }
inline string jcall(const wstring& label, const vector<Index>& args, IdxTable& t) {
  auto& d = definitions().at(label);
  vector<int> a, f;
  // proto-indices of the formal indices take the values of those of the actual ones
  for (size_t k = 0; k < d.formals.size(); ++k) {
    a.push_back(t(args.at(k)));
    f.push_back(t(d.formals[k]));
    auto &pf = d.formals[k].proto_indices(), &pa = args.at(k).proto_indices();
    for (size_t q = 0; q < pf.size() && q < pa.size(); ++q) { a.push_back(t(pa[q])); f.push_back(t(pf[q])); }
  }
  return "{\"k\":\"call\",\"a\":[],\"args\":" + jints(a) + ",\"formals\":" + jints(f) + ",\"e\":" + jexpr(*d.body, t) + "}";
}
inline string jexpr(const Expr& e, IdxTable& t) {
  if (!definitions().empty()) {
    if (e.is<Variable>() && definitions().contains(wstring(e.as<Variable>().label()))) return jcall(wstring(e.as<Variable>().label()), {}, t);
    if (e.is<Tensor>() && definitions().contains(wstring(e.as<Tensor>().label()))) {
      vector<Index> a;
      for (auto& i : e.as<Tensor>().const_slots()) a.push_back(i);
      return jcall(wstring(e.as<Tensor>().label()), a, t);
    }
  }
  if (e.is<Constant>()) return "{\"k\":\"c\",\"s\":" + jscalar(e.as<Constant>().value()) + "}";
  if (e.is<Variable>()) return "{\"k\":\"v\",\"h\":" + std::to_string(label_hash(e.as<Variable>().label())) + ",\"cj\":" + (e.as<Variable>().conjugated() ? "true" : "false") + "}";
  if (e.is<Product>()) {
    auto& p = e.as<Product>();
    return "{\"k\":\"p\",\"s\":" + jscalar(p.scalar()) + ",\"a\":" + jlist(p.factors(), [&](auto& f) { return jexpr(*f, t); }) + "}";
  }
  if (e.is<Sum>()) return "{\"k\":\"+\",\"a\":" + jlist(e.as<Sum>().summands(), [&](auto& f) { return jexpr(*f, t); }) + "}";
  if (e.is<Power>()) {
    auto& p = e.as<Power>();
    return "{\"k\":\"^\",\"b\":" + jexpr(*p.base(), t) + ",\"n\":" + std::to_string(long(static_cast<long long>(numerator(p.exponent())))) + ",\"d\":" + std::to_string(long(static_cast<long long>(denominator(p.exponent())))) +
           ",\"cj\":" + (p.conjugated() ? "true" : "false") + "}";
  }
  if (e.is<Tensor>()) return jtensor(e.as<Tensor>(), e.as<Tensor>().label(), false, t);
  if (auto* x = dynamic_cast<const AbstractTensor*>(&e)) return jtensor(*x, x->_label(), true, t);
  throw std::runtime_error("jexpr: unsupported expression");
}

// a label-exact rendering of an expression, to compare forms
inline string show_index(const Index& i) {
  if (!i.nonnull()) return "_";
  string r = u8(i.label());
  if (i.has_proto_indices()) { r += "<"; for (auto& p : i.proto_indices()) r += show_index(p) + ","; r += ">"; }
  return r;
}
inline string show(const Expr& e) {
  std::ostringstream o;
  auto sc = [&](const auto& c) { std::ostringstream q; q << c.real(); if (c.imag() != 0) q << "+" << c.imag() << "i"; return q.str(); };
  auto idx = [&](auto&& r) { string s; for (auto&& i : r) s += (s.empty() ? "" : ",") + show_index(i); return s; };
  if (e.is<Constant>()) o << sc(e.as<Constant>().value());
  else if (e.is<Variable>()) o << u8(e.as<Variable>().label()) << (e.as<Variable>().conjugated() ? "^*" : "");
  else if (e.is<Product>()) { o << "(" << sc(e.as<Product>().scalar()); for (auto& f : e.as<Product>().factors()) o << " * " << show(*f); o << ")"; }
  else if (e.is<Sum>()) { o << "("; bool f = true; for (auto& s : e.as<Sum>().summands()) { o << (f ? "" : " + ") << show(*s); f = false; } o << ")"; }
  else if (e.is<Power>()) o << show(*e.as<Power>().base()) << "^" << e.as<Power>().exponent();
  else if (auto* x = dynamic_cast<const AbstractTensor*>(&e)) {
    o << u8(x->_label()) << "{" << idx(x->_bra()) << ";" << idx(x->_ket());
    if (x->_aux_rank()) o << ";" << idx(x->_aux());
    o << "}:" << sym_name(x->_symmetry()) << bk_name(x->_braket_symmetry()) << (x->_column_symmetry() == ColumnSymmetry::Symm ? "S" : "N");
  } else o << "?";
  return o.str();
}
inline string show(const ExprPtr& e) { return e ? show(*e) : "null"; }

struct Out {
  std::ofstream f;
  size_t n = 0;
  explicit Out(const string& path) : f(path) { if (!f) { fprintf(stderr, "cannot write %s\n", path.c_str()); exit(3); } }
  void line(const string& s) { f << s << "\n"; ++n; f.flush(); }
};

// runs f; returns "" or what was thrown
template <class F>
string guarded(F&& f) {
  try { f(); return ""; }
  catch (const std::exception& e) { return string("exception: ") + e.what(); }
  catch (...) { return "exception"; }
}
}  // namespace vf
