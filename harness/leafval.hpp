// The tables of numbers that tensors stand for, as defined in TensorAlgebra.tla
// (the specification checks what is computed from them).
#pragma once
#include "common.hpp"
namespace vf {
// a number of GF(P) for the quantity and one for its conjugate
struct Z {
  int64_t v = 0, c = 0;
  Z() = default;
  Z(int x) : v(((x % P) + P) % P), c(v) {}
  Z(int64_t v, int64_t c) : v(((v % P) + P) % P), c(((c % P) + P) % P) {}
  friend Z operator*(Z a, Z b) { return {a.v * b.v, a.c * b.c}; }
  friend Z operator+(Z a, Z b) { return {a.v + b.v, a.c + b.c}; }
  Z& operator+=(Z b) { return *this = *this + b; }
  Z conj() const { return {c, v}; }
  friend auto operator<=>(const Z&, const Z&) = default;
};
namespace leafval {
using Seq = vector<int64_t>;
inline int64_t mod(int64_t x) { return ((x % P) + P) % P; }
inline int64_t mix(int64_t h, int64_t x) { auto a = mod(h * 31 + x * 1009 + 7), b = mod(a * a); return mod(b * a + 12345); }
inline int64_t hash_seq(int64_t h, const Seq& s) { for (auto x : s) h = mix(h, x); return h; }
inline int64_t power(int64_t x, int64_t n) { int64_t r = 1; x = mod(x); for (; n; n /= 2, x = x * x % P) if (n % 2) r = r * x % P; return r; }
inline int64_t inverse(int64_t x) { return power(x, P - 2); }
inline int64_t iota_() { static int64_t i = [] { for (int64_t x = 2; x < P; ++x) if (x * x % P == P - 1) return x; return int64_t(0); }(); return i; }
inline Z scalar(const Constant::scalar_type& c) {
  auto frac = [](auto const& q) { return big_mod(numerator(q)) * inverse(big_mod(denominator(q))) % P; };
  int64_t re = frac(c.real()), im = frac(c.imag());
  return {re + iota_() * im % P, re - iota_() * im % P};
}
struct T { int64_t h; Symmetry sym; BraKetSymmetry bk; bool cs; };
inline int64_t core(const T& t, const Seq& b, const Seq& k, const Seq& x, int sg) {
  auto lab = mix(t.h + 10000 * (sg + 1), int64_t(b.size()) * 7 + int64_t(k.size()));
  return hash_seq(hash_seq(mix(hash_seq(lab, b), 777), k), x);
}
inline int64_t ordered(const T& t, const Seq& b, const Seq& k, const Seq& x, int sg) {
  if (t.bk == BraKetSymmetry::Nonsymm) return core(t, b, k, x, sg);
  if (t.bk == BraKetSymmetry::Symm) return b < k ? core(t, b, k, x, 1) : core(t, k, b, x, 1);
  if (b == k) return core(t, b, k, x, 1);
  return b < k ? core(t, b, k, x, sg) : core(t, k, b, x, -sg);
}
inline int sort_sign(Seq& s) {
  int sg = 1;
  for (size_t i = 0; i < s.size(); ++i)
    for (size_t j = i + 1; j < s.size(); ++j) { if (s[i] == s[j] && s[i] != 0) return 0; if (s[i] > s[j]) sg = -sg; }
  std::stable_sort(s.begin(), s.end());
  return sg;
}
inline int64_t col(const T& t, Seq c, Seq d, const Seq& x, int sg) {
  auto half = [](const Seq& s, bool hi) { Seq r; for (auto n : s) r.push_back(hi ? n / 10000 : n % 10000); return r; };
  if (t.bk == BraKetSymmetry::Nonsymm) return core(t, half(c, true), half(c, false), x, sg);
  if (t.bk == BraKetSymmetry::Symm) return c < d ? core(t, half(c, true), half(c, false), x, 1) : core(t, half(d, true), half(d, false), x, 1);
  if (c == d) return core(t, half(c, true), half(c, false), x, 1);
  return c < d ? core(t, half(c, true), half(c, false), x, sg) : core(t, half(d, true), half(d, false), x, -sg);
}
inline int64_t plain(const T& t, Seq b, Seq k, const Seq& x, int sg) {
  if (t.sym == Symmetry::Antisymm) { int s = sort_sign(b) * sort_sign(k); return s == 0 ? 0 : mod(s * ordered(t, b, k, x, sg)); }
  if (t.sym == Symmetry::Symm) { std::sort(b.begin(), b.end()); std::sort(k.begin(), k.end()); return ordered(t, b, k, x, sg); }
  if (!t.cs) return ordered(t, b, k, x, sg);
  Seq c, d;
  for (size_t n = 0; n < std::max(b.size(), k.size()); ++n) {
    auto bb = n < b.size() ? b[n] : 0, kk = n < k.size() ? k[n] : 0;
    c.push_back(bb * 10000 + kk); d.push_back(kk * 10000 + bb);
  }
  std::sort(c.begin(), c.end()); std::sort(d.begin(), d.end());
  return col(t, c, d, x, sg);
}
// value of a slot, given the values of the index and of its proto-indices
inline int64_t slot(const Index& i, const std::function<int(const Index&)>& env) {
  if (!i.nonnull()) return 0;
  if (!i.has_proto_indices()) return env(i);
  Seq p;
  for (auto& q : i.proto_indices()) p.push_back(env(q));
  std::sort(p.begin(), p.end());
  return env(i) + 20 * (1 + hash_seq(17, p) % 400);
}
inline Z tensor(const Tensor& t, const std::function<int(const Index&)>& env, int version = 0) {
  wstring label(t.label());
  bool adj = !label.empty() && label.back() == sequant::adjoint_label;
  if (adj) label.pop_back();
  Seq b, k, x;
  for (auto& i : t.bra()) b.push_back(slot(i, env));
  for (auto& i : t.ket()) k.push_back(slot(i, env));
  for (auto& i : t.aux()) x.push_back(slot(i, env));
  T s{label_hash(label), t.symmetry(), t.braket_symmetry(), t.column_symmetry() == ColumnSymmetry::Symm};
  if (version) s.h = (s.h * 7 + version * 131) % 9999 + 1;
  if (adj) return {plain(s, k, b, x, -1), plain(s, k, b, x, 1)};
  return {plain(s, b, k, x, 1), plain(s, b, k, x, -1)};
}
inline Z variable(const Variable& v) {
  auto h = label_hash(v.label());
  auto root = [&](int sg) { return mix(mix(h + 10000 * (sg + 1), 0), 777); };
  auto a = root(1), b = root(-1);
  Z z{a * a, b * b};
  return v.conjugated() ? z.conj() : z;
}
}  // namespace leafval
}  // namespace vf
