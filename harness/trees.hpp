// Random expression trees with given open indices.
#pragma once
#include "nets.hpp"
#include <SeQuant/core/expressions/power.hpp>
namespace vf {
struct Open { wstring label; int side; };  // side: 0 bra, 1 ket, 2 aux
struct Gen {
  Rng& r;
  int next = 1;
  int budget = 7;  // contracted indices
  bool zeros = false;
  bool flippable = true;  // tensors that allow exchanging bra and ket
  bool complex = true;
  bool adjoints = true;   // adjoints of tensors and variables
  bool fractions = true;  // exponents that are not whole numbers
  bool per_space = false; // number the indices of each space on their own
  bool shapes = false;    // labels tell the shape of a tensor
  std::map<char, int> count;
  explicit Gen(Rng& r) : r(r) {}
  Open fresh(int side) {
    char sp = side == 2 ? 'K' : "ia"[r.below(2)];
    return {wstring(1, wchar_t(sp)) + L"_" + std::to_wstring(per_space ? ++count[sp] : next++), side};
  }
  Constant::scalar_type number(bool zero = false) {
    static const int n[] = {1, 2, -1, 3, -2, 5}, d[] = {1, 1, 1, 2, 3};
    if (zero && r.chance(12)) return 0;
    Constant::scalar_type c{rational{n[r.below(6)], d[r.below(5)]}};
    if (r.chance(15) && complex) c = Constant::scalar_type{rational{n[r.below(6)], d[r.below(5)]}, rational{n[r.below(6)], d[r.below(5)]}};
    return c;
  }
  ExprPtr scalar() {
    int c = int(r.below(10));
    if (c < 4) return ex<Constant>(number(zeros));
    static const wchar_t* names[] = {L"x", L"y"};
    auto v = ex<Variable>(wstring(names[r.below(2)]));
    if (r.chance(25) && adjoints) v->adjoint();
    if (c < 7) return v;
    static const rational exps[] = {rational(2), rational(3), rational(-1), rational(1, 2), rational(1, 3), rational(0), rational(1), rational(-3, 2)};
    auto e = exps[r.below(8)];
    if (!fractions && denominator(e) != 1) e = rational(2);
    auto p = r.chance(50) ? ex<Power>(v, e) : ex<Power>(ex<Constant>([&] { static const rational b[] = {rational(4), rational(1), rational(2), rational(9, 4), rational(-2), rational(1, 3)}; return Constant::scalar_type{b[r.below(6)]}; }()), e);
    if (r.chance(20) && adjoints) p->adjoint();
    return p;
  }
  ExprPtr leaf(const vector<Open>& open, int nops) {
    vector<Index> b, k, x;
    for (auto& o : open) (o.side == 0 ? b : o.side == 1 ? k : x).push_back(Index(o.label));
    if (nops) {
      // index in a bra slot of the tree is annihilated
      return ex<FNOperator>(cre(k), ann(b), get_default_context().vacuum());
    }
    if (open.empty()) return scalar();
    int l = int(r.below(5));
    // a program has one block for x(i,a|) and x(|i,a), which are not equal
    if (shapes && b.size() != k.size() && (l == 0 || l == 4)) l = 2;
    static const wchar_t* names[] = {L"g", L"f", L"t", L"u", L"h"};
    auto sym = l == 0 ? Symmetry::Antisymm : l == 1 ? Symmetry::Symm : Symmetry::Nonsymm;
    auto bk = l == 0 ? BraKetSymmetry::Conjugate : l == 4 && flippable ? BraKetSymmetry::Symm : BraKetSymmetry::Nonsymm;
    auto cs = l == 3 ? ColumnSymmetry::Nonsymm : ColumnSymmetry::Symm;
    wstring name = names[l];
    if (shapes) for (auto n : {b.size(), k.size(), x.size()}) name += wchar_t(L'a' + n);
    auto t = ex<Tensor>(name, bra(b), ket(k), aux(x), sym, bk, cs);
    if (r.chance(10) && adjoints) t = adjoint(ex<Tensor>(name, bra(k), ket(b), aux(x), sym, bk, cs));
    return t;
  }
  ExprPtr sum(const vector<Open>& open, int depth, int nops) {
    Sum::summands_type v;
    int n = r.range(1, 3);
    if (r.chance(4) && zeros) n = 0;
    for (int k = 0; k < n; ++k) v.push_back(!v.empty() && r.chance(15) ? r.pick(v)->clone() : tree(open, depth - 1, nops));
    if (r.chance(50)) return ExprPtr(std::make_shared<Sum>(std::move(v), Sum::move_only_tag{}));
    return ex<Sum>(v.begin(), v.end());
  }
  ExprPtr product(const vector<Open>& open, int depth, int nops) {
    int n = r.range(nops > 1 ? 2 : 1, 3);
    vector<vector<Open>> part(n);
    vector<int> ops(n, 0);
    for (int q = 0; q < nops; ++q) { int at = int(r.below(n)); ops[at]++; }
    for (auto& o : open) part[r.below(n)].push_back(o);
    if (n > 1)
      for (int q = 0, m = r.range(0, 2); q < m && budget > 0; ++q) {
        int a = int(r.below(n)), b = int(r.below(n - 1));
        if (b >= a) ++b;
        int side = r.chance(15) ? 2 : 0;
        if (side == 2 && (ops[a] || ops[b])) side = 0;
        auto o = fresh(side);
        --budget;
        part[a].push_back(o);
        if (side == 0) o.side = 1;
        part[b].push_back(o);
      }
    // an operator has no auxiliary slots and needs at least one index
    for (int q = 0; q < n; ++q)
      if (ops[q] && part[q].empty()) {
        int other = q == 0 ? (n > 1 ? 1 : -1) : 0;
        if (other < 0) return leaf(open, nops);
        auto o = fresh(0);
        --budget;
        part[q].push_back(o);
        o.side = 1;
        part[other].push_back(o);
      }
    auto p = std::make_shared<Product>();
    auto fl = r.chance(60) ? Product::Flatten::No : r.chance(50) ? Product::Flatten::Once : Product::Flatten::Yes;
    for (int q = 0; q < n; ++q) p->append(1, tree(part[q], depth - 1, ops[q]), fl);
    if (r.chance(50)) p->scale(number(zeros));
    if (r.chance(20)) p->append(1, scalar(), fl);
    return ExprPtr(p);
  }
  ExprPtr tree(const vector<Open>& open, int depth, int nops) {
    bool aux = false;
    for (auto& o : open) aux |= o.side == 2;
    if (nops && (open.empty() || (aux && nops))) {
      // needs a product to hold indices of its own
      if (nops == 1 && aux) {
        vector<Open> a, b;
        for (auto& o : open) (o.side == 2 ? a : b).push_back(o);
        auto p = std::make_shared<Product>();
        auto o = fresh(0);
        --budget;
        a.push_back(o);
        o.side = 1;
        b.push_back(o);
        p->append(1, leaf(a, 0));
        p->append(1, leaf(b, 1));
        return ExprPtr(p);
      }
      return product(open, depth, nops);
    }
    if (nops > 1) return product(open, depth, nops);
    int c = int(r.below(100));
    if (depth <= 0 || c < 20) return leaf(open, nops);
    if (c < 60) return sum(open, depth, nops);
    return product(open, depth, nops);
  }
};
}  // namespace vf
