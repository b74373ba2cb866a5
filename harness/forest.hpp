// Forests: terms that have blocks (networks or sums of tensors) in common.
#pragma once
#include "trees.hpp"
namespace vf {
struct Forest {
  struct E { char sp; int side; };
  // sums as common subexpressions: the same tensors with indices in the same or another order
  struct Form { wstring label; vector<int> perm; int coef; bool anti; };
  struct Shape { vector<Form> forms; };
  Rng& r;
  vector<Net> blocks;
  vector<E> es;  // external indices: some of the slots the first block leaves open
  vector<E> token;
  vector<Shape> shapes;
  bool sums = false;
  bool plain = false;  // occurrences of a block differ in the names of indices only
  int last = -1;       // the block used by the last term, if it stands by itself
  int next = 10;
  static vector<int> sides(const Net& n) {
    vector<int> s(n.idx.size(), -1);
    for (auto& t : n.t) { for (int q : t.bra) if (q >= 0) s[q] = 0; for (int q : t.ket) if (q >= 0) s[q] = 1; for (int q : t.aux) s[q] = 2; }
    return s;
  }
  static wstring elabel(char sp, int k) { return wstring(1, wchar_t(sp)) + L"_" + std::to_wstring(k + 1); }
  explicit Forest(Rng& r, bool want_sums = true) : r(r) {
    NetOptions no;
    no.max_tensors = r.range(1, 3); no.hyper = r.chance(30); no.max_ext = 3; no.protos = r.chance(30);
    int nb = r.range(1, 2);
    for (int k = 0; k < nb; ++k) {
      Net n = random_net(r, no);
      n.num = n.den = 1;
      if (k == 1 && r.chance(60)) {
        // almost the first one
        n = blocks[0];
        auto& t = r.pick(n.t);
        int what = int(r.below(4));
        auto swap2 = [&](vector<int>& v, string& sp) { if (v.size() > 1 && sp[0] == sp[1]) std::swap(v[0], v[1]); };
        if (what == 0) swap2(t.bra, t.sig.bra);
        else if (what == 1) swap2(t.ket, t.sig.ket);
        else if (what == 2) t.sig.sym = t.sig.sym == Symmetry::Nonsymm ? t.sig.sym : Symmetry::Nonsymm;
        else t.sig.label = L"zz";
      }
      blocks.push_back(n);
    }
    if (true) {
      auto s = sides(blocks[0]);
      for (size_t k = 0; k < blocks[0].idx.size(); ++k)
        if (blocks[0].idx[k].ext && s[k] >= 0 && blocks[0].idx[k].proto.empty() && es.size() < 2 && r.chance(60)) es.push_back({blocks[0].idx[k].sp, s[k]});
    }
    sums = r.chance(40) && want_sums;
    auto exchange = [&](vector<int>& v) {
      for (int tries = 0; tries < 8; ++tries) {
        int x = int(r.below(v.size())), y = int(r.below(v.size()));
        if (x != y && token[v[x]].sp == token[v[y]].sp && token[v[x]].side == token[v[y]].side) { std::swap(v[x], v[y]); return; }
      }
    };
    if (sums) {
      int m = r.range(2, 3);
      bool same = r.chance(70), side = r.chance(50);
      char sp0 = "ia"[r.below(2)];
      for (int k = 0; k < m; ++k) token.push_back({same ? sp0 : "ia"[r.below(2)], side ? 0 : int(r.below(2))});
      Shape base;
      static const wchar_t* names[] = {L"f", L"g", L"t"};
      for (int k = 0, w = r.range(2, 3); k < w; ++k) {
        Form f;
        f.label = names[k];
        f.anti = k == 1 && r.chance(50);
        for (int q = 0; q < m; ++q) f.perm.push_back(q);
        if (r.chance(50)) exchange(f.perm);
        f.coef = r.chance(75) ? 1 : r.chance(50) ? -1 : 2;
        base.forms.push_back(f);
      }
      shapes.push_back(base);
      for (int k = 0, w = r.range(0, 2); k < w; ++k) {
        Shape s = base;
        int c = int(r.below(4));
        if (c < 2) exchange(r.pick(s.forms).perm);
        else if (c == 2) { auto keep = r.s; for (auto& f : s.forms) { r.s = keep; exchange(f.perm); } }
        else r.pick(s.forms).coef *= -1;
        shapes.push_back(s);
      }
      es.clear();
      for (auto& t : token) if (es.size() < 2 && r.chance(50)) es.push_back(t);
    }
  }
  ExprPtr sum_term() {
    last = -1;
    auto& s = r.pick(shapes);
    vector<Index> ix;
    vector<bool> used(es.size(), false);
    vector<int> order, inner;
    for (size_t k = 0; k < token.size(); ++k) order.push_back(int(k));
    r.shuffle(order);
    ix.resize(token.size());
    vector<Index> b, k2;
    int start = next;
    next += int(token.size());
    vector<int> names;
    for (size_t k = 0; k < token.size(); ++k) names.push_back(start + int(k));
    r.shuffle(names);
    for (int k : order) {
      bool kept = false;
      for (size_t q = 0; q < es.size() && !kept; ++q)
        if (!used[q] && es[q].sp == token[k].sp && es[q].side == token[k].side) { used[q] = kept = true; ix[k] = Index(elabel(es[q].sp, int(q))); }
      if (!kept) { ix[k] = Index(elabel(token[k].sp, names[k])); inner.push_back(k); }
    }
    if (r.chance(60)) std::sort(inner.begin(), inner.end());
    for (int k : inner) (token[k].side == 0 ? k2 : b).push_back(ix[k]);
    for (size_t q = 0; q < es.size(); ++q) if (!used[q]) (es[q].side == 0 ? b : k2).push_back(Index(elabel(es[q].sp, int(q))));
    vector<ExprPtr> v;
    for (auto& f : s.forms) {
      vector<Index> fb, fk;
      for (int q : f.perm) (token[q].side == 0 ? fb : fk).push_back(ix[q]);
      ExprPtr t = ex<Tensor>(f.label, bra(fb), ket(fk), aux{}, f.anti ? Symmetry::Antisymm : Symmetry::Nonsymm, BraKetSymmetry::Nonsymm, f.anti ? ColumnSymmetry::Symm : ColumnSymmetry::Nonsymm);
      if (f.coef != 1) t = ex<Constant>(f.coef) * t;
      v.push_back(t);
    }
    auto prod = std::make_shared<Product>();
    auto other = b.empty() && k2.empty() ? ex<Variable>(r.chance(50) ? L"x" : L"y") : ex<Tensor>(r.chance(50) ? L"X" : L"Y", bra(b), ket(k2), aux{}, Symmetry::Nonsymm, BraKetSymmetry::Nonsymm, ColumnSymmetry::Nonsymm);
    prod->append(1, ex<Sum>(v.begin(), v.end()), Product::Flatten::No);
    prod->append(1, other, Product::Flatten::No);
    static const int nums[] = {1, 1, -1, 2};
    prod->scale(nums[r.below(4)]);
    return prod;
  }
  ExprPtr term() {
    if (sums) return sum_term();
    int which = int(r.below(blocks.size()));
    const Net& n = blocks[which];
    auto s = sides(n);
    auto p = plain ? identity(n) : random_pres(n, r, next, true);
    if (plain) for (auto& q : p.ord) q += next;
    next += int(n.idx.size()) + 6;
    vector<int> openi;
    for (size_t k = 0; k < n.idx.size(); ++k) if (n.idx[k].ext) openi.push_back(int(k));
    r.shuffle(openi);
    vector<Index> b, k2, x;
    vector<bool> used(es.size(), false);
    for (int k : openi) {
      bool kept = false;
      for (size_t q = 0; q < es.size() && !kept; ++q)
        if (!used[q] && es[q].sp == n.idx[k].sp && es[q].side == s[k] && n.idx[k].proto.empty()) { used[q] = kept = true; p.ord[k] = int(q) + 1; }
      if (!kept) p.ord[k] = next++;
    }
    for (int k : openi) {
      bool kept = p.ord[k] <= int(es.size());
      if (kept || s[k] < 0) continue;
      (s[k] == 0 ? k2 : s[k] == 1 ? b : x).push_back(net_index(n, p, k));
    }
    for (size_t q = 0; q < es.size(); ++q) if (!used[q]) (es[q].side == 0 ? b : es[q].side == 1 ? k2 : x).push_back(Index(elabel(es[q].sp, int(q))));
    ExprPtr block = net_expr(n, p);
    auto prod = std::make_shared<Product>();
    auto other = [&] { return b.empty() && k2.empty() && x.empty() ? ex<Variable>(r.chance(50) ? L"x" : L"y") : ex<Tensor>(r.chance(50) ? L"X" : L"Y", bra(b), ket(k2), aux(x), Symmetry::Nonsymm, BraKetSymmetry::Nonsymm, ColumnSymmetry::Nonsymm); };
    auto fl = r.chance(70) ? Product::Flatten::No : Product::Flatten::Yes;
    bool first = r.chance(70);
    last = plain && fl == Product::Flatten::No ? 2 * which + (first ? 0 : 1) : -1;
    if (first) prod->append(1, block, fl);
    prod->append(1, other(), Product::Flatten::No);
    if (!first) prod->append(1, block, fl);
    static const int nums[] = {1, -1, 2, 3};
    prod->scale(nums[r.below(4)]);
    return prod;
  }
};
}  // namespace vf
