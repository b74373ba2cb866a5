// Integrates spin out of random expressions, expands their antisymmetrizers,
// symmetrizers, transpositions and antisymmetric tensors, and moves spin labels
// about; records input and results for SpinValue.
#include "nets.hpp"
#include <SeQuant/core/expressions/result_expr.hpp>
#include <SeQuant/core/utility/expr.hpp>
#include <SeQuant/core/utility/indices.hpp>
#include <SeQuant/domain/mbpt/convention.hpp>
#include <SeQuant/domain/mbpt/op.hpp>
#include <SeQuant/domain/mbpt/spin.hpp>
using namespace vf;
namespace mb = sequant::mbpt;
using Idx = vector<Index>;

bool is_op(const ExprPtr& f) {
  if (!f->is<Tensor>()) return false;
  auto l = f->as<Tensor>().label();
  return l == reserved::antisymm_label() || l == reserved::symm_label() || l == reserved::transposition_label();
}
// operators in products permute the names of indices in the rest of the product
string jx(const ExprPtr& e, IdxTable& t);
string jop(const string& kind, const vector<int>& b, const vector<int>& q, const string& rest) { return "{\"k\":\"" + kind + "\",\"b\":" + jints(b) + ",\"q\":" + jints(q) + ",\"e\":" + rest + "}"; }
string jx(const ExprPtr& e, IdxTable& t) {
  if (e->is<Sum>()) return "{\"k\":\"+\",\"a\":" + jlist(e->as<Sum>().summands(), [&](auto& f) { return jx(f, t); }) + "}";
  if (e->is<Product>()) {
    auto& p = e->as<Product>();
    vector<ExprPtr> rest, ops;
    for (auto& f : p.factors()) (is_op(f) ? ops : rest).push_back(f);
    string s = "{\"k\":\"p\",\"s\":" + jscalar(p.scalar()) + ",\"a\":" + jlist(rest, [&](auto& f) { return jx(f, t); }) + "}";
    for (size_t n = ops.size(); n-- > 0;) {
      auto& o = ops[n]->as<Tensor>();
      vector<int> b, q;
      for (auto& i : o.bra()) b.push_back(t(i));
      for (auto& i : o.ket()) q.push_back(t(i));
      if (o.label() == reserved::transposition_label()) { b.insert(b.end(), q.begin(), q.end()); q.clear(); }
      s = jop(o.label() == reserved::antisymm_label() ? "anti" : o.label() == reserved::symm_label() ? "symm" : "swap", b, q, s);
    }
    return s;
  }
  return jexpr(e, t);
}

struct Maker {
  Rng& r;
  std::map<char, int> count;
  bool labelled = false;   // indices have spins from the start
  bool open = false;       // no tensor has columns that may not be exchanged, if closed
  int spread = 0;          // ordinals of externals are not the lowest
  explicit Maker(Rng& r) : r(r) {}
  Index spun(const Index& i) { return !labelled ? i : r.chance(70) ? mb::make_spinalpha(i) : mb::make_spinbeta(i); }
  Index fresh() {
    char sp = "ia"[r.below(2)];
    return spun(Index(wstring(1, wchar_t(sp)) + L"_" + std::to_wstring(++count[sp] + spread)));
  }
  Index like(const Index& i) { auto sp = i.label()[0]; return spun(Index(wstring(1, sp) + L"_" + std::to_wstring(++count[char(sp)] + spread))); }
  // x: external indices in bra slots, y: in ket slots
  vector<ExprPtr> tensors(const Idx& x, const Idx& y, int maxdummies) {
    vector<int> rank;
    int total = 0, want = std::max<int>(1, int(x.size()) + r.range(0, maxdummies));
    while (total < want) { int k = std::min(want - total, r.chance(20) ? 3 : r.range(1, 2)); rank.push_back(k); total += k; }
    Idx b = x, k = y;
    while (int(b.size()) < total) { auto d = fresh(); b.push_back(d); k.push_back(d); }
    r.shuffle(b); r.shuffle(k);
    vector<ExprPtr> v;
    size_t at = 0;
    for (int n : rank) {
      Idx tb(b.begin() + at, b.begin() + at + n), tk(k.begin() + at, k.begin() + at + n);
      at += n;
      int l = int(r.below(5));
      static const wchar_t* names[] = {L"g", L"t", L"f", L"u", L"h"};
      auto sym = l < 3 ? Symmetry::Antisymm : Symmetry::Nonsymm;
      auto bk = l == 0 ? BraKetSymmetry::Conjugate : l == 4 ? BraKetSymmetry::Symm : BraKetSymmetry::Nonsymm;
      v.push_back(ex<Tensor>(names[l], bra(tb), ket(tk), sym, bk, ColumnSymmetry::Symm));
    }
    return v;
  }
  ExprPtr product(vector<ExprPtr> ts, const vector<ExprPtr>& ops = {}) {
    static const int num[] = {1, 2, -1, 3, -2}, den[] = {1, 1, 2, 4};
    auto p = std::make_shared<Product>();
    for (auto& o : ops) p->append(1, o->clone());
    if (r.chance(10)) ts.insert(ts.begin() + r.below(ts.size() + 1), ex<Variable>(L"x"));
    for (auto& t : ts) p->append(1, t);
    p->scale(rational{num[r.below(5)], den[r.below(4)]});
    return ExprPtr(p);
  }
};

vector<int> places(const Idx& v, const Idx& of) {
  vector<int> r;
  for (auto& i : v) {
    auto q = std::ranges::find(of, i);
    if (q == of.end()) throw std::runtime_error("result has other indices");
    r.push_back(int(q - of.begin()));
  }
  return r;
}

int main(int argc, char** argv) {
  if (argc < 4) return 2;
  Out out(argv[1]);
  uint64_t seed = strtoull(argv[2], nullptr, 10);
  int count = atoi(argv[3]), only = argc > 4 ? atoi(argv[4]) : -1;
  set_num_threads(1);
  TensorCanonicalizer::register_instance(std::make_shared<DefaultTensorCanonicalizer>());
  TensorCanonicalizer::set_cardinal_tensor_labels(mb::cardinal_tensor_labels());
  set_default_context({.index_space_registry_shared_ptr = mb::make_min_sr_spaces(), .vacuum = Vacuum::SingleProduct, .assert_strict_braket_symmetry = false, .spbasis = SPBasis::Spinor, .first_dummy_index_ordinal = 100});
  const auto plain_context = get_default_context();
  static const char* kinds[] = {"antisymm", "expandA", "symmetrize", "expandP", "expandS", "spintrace", "spintrace", "closed", "closed", "open", "openCC", "result", "labels"};
  for (int c = 0; c < count; ++c) {
    if (only >= 0 && c != only) continue;
    Rng r(seed * 1000003 + c);
    string kind = kinds[r.below(13)];
    int N = r.chance(15) ? 1 : 2;
    IdxTable tab([&](const Index& i) {
      wstring k(i.space().base_key());
      int lo = k[0] == L'i' ? 0 : 2 * N;
      if (k.size() == 1) return Range{lo, 2 * N};
      return Range{lo + (k.back() == L'↑' ? 0 : N), N};
    });
    bool preserving = kind == "antisymm" || kind == "expandA" || kind == "symmetrize" || kind == "expandP" || kind == "expandS" || kind == "labels";
    Maker g(r);
    g.labelled = kind == "antisymm" || kind == "labels" ? r.chance(60) : false;
    int m = r.range(0, 2);
    if (kind == "expandA" || kind == "symmetrize" || kind == "expandP" || kind == "expandS" || kind == "openCC") m = r.range(1, 2);
    if (r.chance(12)) m = 3;
    Idx x, y, ext;
    // as in coupled-cluster theory: bra and ket externals of one space each
    bool cc = r.chance(60);
    for (int k = 0; k < m; ++k) x.push_back(cc && k ? g.like(x[0]) : g.fresh());
    for (int k = 0; k < m; ++k) y.push_back(cc && k ? g.like(y[0]) : g.fresh());
    // an antisymmetrizer is an operator for expansion and an antisymmetric tensor
    // for canonicalization: its indices have to be in canonical order
    const bool sorted = kind == "openCC" || r.chance(60);
    if (sorted) { std::ranges::sort(x, std::less<Index>{}); std::ranges::sort(y, std::less<Index>{}); }
    for (int k = 0; k < m; ++k) { ext.push_back(x[k]); ext.push_back(y[k]); }
    cc = cc && m && x[0].space() != y[0].space();
    set_default_context(plain_context);
    int maxd = m == 3 ? 1 : m == 2 ? 2 : 3;
    // a leading operator
    vector<ExprPtr> ops;
    auto op = [&](const wstring& l, Idx b, Idx k, Symmetry s) { ops.push_back(ex<Tensor>(l, bra(b), ket(k), s)); };
    bool traced = kind == "spintrace" || kind == "closed" || kind == "open";
    if (m && (kind == "openCC" || kind == "expandA" || (traced && sorted && r.chance(80)))) {
      Idx b = y, k = x;
      if (kind == "expandA" && r.chance(30)) { if (r.chance(50)) b.resize(r.below(b.size() + 1)); else k.resize(r.below(k.size() + 1)); }
      if (b.empty() && k.empty()) b = y;
      op(reserved::antisymm_label(), b, k, Symmetry::Antisymm);
    } else if (kind == "symmetrize") op(reserved::antisymm_label(), y, x, Symmetry::Antisymm);
    else if (kind == "expandS") { if (m == 1) continue; op(reserved::symm_label(), y, x, Symmetry::Nonsymm); }
    else if (kind == "expandP") {
      if (m == 1) continue;
      Idx b(y.begin(), y.begin() + 2), k(x.begin(), x.begin() + 2);
      int w = int(r.below(3));
      op(reserved::transposition_label(), w == 1 ? Idx{} : b, w == 0 ? Idx{} : k, Symmetry::Symm);
    }
    // externals that occur in an antisymmetrizer as well are not told from
    // dummies by canonicalization, unless they have the lowest ordinals of their
    // space anyway or are named
    if ((!ops.empty() || kind == "result") && !(cc && r.chance(50))) {
      auto ctx = get_default_context();
      auto copt = CanonicalizeOptions::default_options();
      container::set<Index> named;
      for (auto& i : ext) { named.insert(i); if (!g.labelled) { named.insert(mb::make_spinalpha(i)); named.insert(mb::make_spinbeta(i)); } }
      copt.named_indices = named;
      ctx.set(copt);
      set_default_context(ctx);
    }
    ExprPtr e;
    int terms = r.chance(60) ? 1 : r.range(2, 3);
    auto before = g.count;
    vector<ExprPtr> v;
    for (int q = 0; q < terms; ++q) {
      g.count = before;
      auto ts = g.tensors(x, y, maxd);
      if (ops.empty() && ts.size() == 1 && r.chance(30)) v.push_back(ts[0]);
      else v.push_back(g.product(ts, ops));
    }
    e = v.size() == 1 ? v[0] : ex<Sum>(v.begin(), v.end());
    if (m == 0 && e->is<Sum>() && r.chance(30)) e->as<Sum>().append(ex<Constant>(rational{2, 3}));
    const string given = show(e);
    string in = jx(e, tab);
    vector<int> extn;
    for (auto& i : ext) extn.push_back(tab(i));
    // groups of externals: pairs of a bra and a ket index
    vector<int> pair = iota(m);
    if (ops.empty()) r.shuffle(pair);
    vector<vector<int>> groups;
    container::svector<container::svector<SlottedIndex>> slotted;
    container::svector<container::svector<Index>> plain;
    for (int k = 0; k < m; ++k) {
      groups.push_back({2 * k + 1, 2 * pair[k] + 2});
      // bra slots of the tensors hold x
      slotted.push_back({SlottedIndex(x[k], SlotType::Bra), SlottedIndex(y[pair[k]], SlotType::Ket)});
      plain.push_back({x[k], y[pair[k]]});
    }
    vector<string> outs, names, shows, errs;
    auto add = [&](const string& name, const ExprPtr& o, const string& how, const vector<vector<int>>& ids, const vector<int>& sp, bool open, int sign = 1, std::function<string(string)> wrap = nullptr) {
      string j = jx(o, tab);
      if (wrap) j = wrap(j);
      outs.push_back("{\"e\":" + j + ",\"how\":\"" + how + "\",\"ext\":" + jlist(ids, [](auto& q) { return jints(q); }) + ",\"sp\":" + jints(sp) + ",\"open\":" + (open ? "true" : "false") + ",\"groups\":" + jlist(groups, [](auto& q) { return jints(q); }) + ",\"sign\":" + std::to_string(sign) + "}");
      names.push_back(name); shows.push_back(show(o));
    };
    auto run = [&](const string& name, std::function<void()> f) { auto q = guarded(f); if (!q.empty()) errs.push_back(name + ": " + q); };
    vector<vector<int>> same;
    for (int n : extn) same.push_back({n});
    vector<int> zero(ext.size(), 0), some;
    for (size_t k = 0; k < ext.size(); ++k) some.push_back(r.range(1, 2));
    if (preserving) for (size_t k = 0; k + 1 < some.size(); k += 2) if (r.chance(70)) some[k + 1] = some[k];
    // the labels that external p has when its spin is s: 1 up, 2 down, 0 both
    auto labelled = [&](const vector<int>& sp) {
      vector<vector<int>> v;
      for (size_t k = 0; k < ext.size(); ++k) {
        vector<int> q;
        if (sp[k] != 2) q.push_back(tab(mb::make_spinalpha(ext[k])));
        if (sp[k] != 1) q.push_back(tab(mb::make_spinbeta(ext[k])));
        v.push_back(q);
      }
      return v;
    };
    bool open = r.chance(50);
    bool useSlots = r.chance(50);
    if (kind == "antisymm") run(kind, [&] { bool skip = g.labelled && r.chance(50); add(kind, mb::expand_antisymm(e->clone(), skip), "so", same, some, open); });
    else if (kind == "expandA") run(kind, [&] { add(kind, mb::expand_A_op(e->clone()), "so", same, some, open); });
    else if (kind == "symmetrize") run(kind, [&] { auto s = mb::symmetrize_expr(e->clone()); add(kind, s, "so", same, some, open); if (m > 1) add("S_maps", mb::S_maps(s->clone()), "so", same, some, open); });
    else if (kind == "expandP") run(kind, [&] { add(kind, mb::expand_P_op(e->clone()), "so", same, some, open); });
    else if (kind == "expandS") run(kind, [&] { add(kind, mb::S_maps(e->clone()), "so", same, some, open); });
    else if (kind == "spintrace") {
      bool sf = r.chance(70);
      run(kind, [&] { auto o = useSlots ? mb::spintrace(e->clone(), slotted, sf) : mb::spintrace(e->clone(), plain, sf); if (sf) add(kind, o, "sf", same, zero, false); else add(kind + "-labelled", o, "so", labelled(zero), zero, open); });
    } else if (kind == "closed") {
      bool full = r.chance(40);
      run(kind, [&] { auto o = useSlots ? mb::closed_shell_spintrace(e->clone(), slotted, full) : mb::closed_shell_spintrace(e->clone(), plain, full); add(kind + (full ? "-full" : ""), o, "sf", same, zero, false); });
    } else if (kind == "open") {
      run(kind, [&] {
        auto o = useSlots ? mb::open_shell_spintrace(e->clone(), slotted) : mb::open_shell_spintrace(e->clone(), plain);
        if (e->is<Constant>()) return;
        for (int s = 0; s <= m; ++s) {
          vector<int> sp(ext.size());
          for (int k = 0; k < m; ++k) for (int p : groups[k]) sp[p - 1] = k >= m - s ? 2 : 1;
          add(kind + std::to_string(s), o.at(s), "so", labelled(sp), sp, open);
          if (r.chance(30)) add(kind + std::to_string(s) + "-alone", (useSlots ? mb::open_shell_spintrace(e->clone(), slotted, s) : mb::open_shell_spintrace(e->clone(), plain, s)).at(0), "so", labelled(sp), sp, open);
        }
      });
    } else if (kind == "openCC") {
      run(kind, [&] {
        auto o = mb::open_shell_CC_spintrace(e->clone());
        for (int s = 0; s <= m; ++s) {
          vector<int> sp(ext.size());
          for (int k = 0; k < m; ++k) for (int p : groups[k]) sp[p - 1] = k >= m - s ? 2 : 1;
          // what is left: antisymmetrizers over indices of one spin
          auto ids = labelled(sp);
          // canonicalization names externals of each spin from the lowest
          if (m == 3 && !get_default_context().canonicalization_options()->named_indices) {
            std::map<std::pair<wchar_t, int>, int> n;
            for (size_t k = 0; k < ext.size(); ++k) {
              Index i(wstring(1, ext[k].label()[0]) + L"_" + std::to_wstring(++n[{ext[k].label()[0], sp[k]}]));
              ids[k] = {tab(sp[k] == 1 ? mb::make_spinalpha(i) : mb::make_spinbeta(i))};
            }
          }
          add(kind + std::to_string(s), o.at(s), "so", ids, sp, open, 1, [&](string j) {
            for (int spin : {1, 2}) {
              vector<int> b, q;
              for (int k = 0; k < m; ++k) if (sp[2 * k] == spin) { q.push_back(ids[2 * k][0]); b.push_back(ids[2 * k + 1][0]); }
              if (b.size() > 1) j = jop("anti", b, q, j);
            }
            return j;
          });
        }
      });
    } else if (kind == "result") {
      run(kind, [&] {
        auto sym = m > 1 && r.chance(60) ? Symmetry::Antisymm : Symmetry::Nonsymm;
        // the expression has the symmetry of its result
        ExprPtr f = e->clone();
        if (sym == Symmetry::Antisymm) {
          Sum s;
          auto b = y, k = x;
          std::ranges::sort(b, std::less<Index>{});
          std::ranges::sort(k, std::less<Index>{});
          auto A = ex<Tensor>(reserved::antisymm_label(), bra(b), ket(k), Symmetry::Antisymm);
          const int sign = perm_sign(places(x, k)) * perm_sign(places(y, b));
          for (auto& t : f->is<Sum>() ? f->as<Sum>().summands() : Sum::summands_type{f}) s.append(ex<Constant>(sign) * A->clone() * t);
          f = s.size() == 1 ? s.summand(0) : ex<Sum>(s);
          in = jx(f, tab);
        }
        auto res = m ? ResultExpr(bra(x), ket(y), aux(Idx{}), sym, BraKetSymmetry::Nonsymm, ColumnSymmetry::Symm, L"R", f) : ResultExpr(Variable(L"R"), f);
        bool closed = r.chance(50);
        auto os = closed ? mb::closed_shell_spintrace(res) : mb::spintrace(res);
        for (auto& o : os) {
          // groups are the columns of this result, external p is at the same place as in the original
          vector<int> perm;
          auto pb = places(Idx(o.bra().begin(), o.bra().end()), x), pk = places(Idx(o.ket().begin(), o.ket().end()), y);
          groups.clear();
          for (int k = 0; k < m; ++k) groups.push_back({2 * pb[k] + 1, 2 * pk[k] + 2});
          add(string("result") + (closed ? "-closed" : ""), o.expression(), "sf", same, zero, false, perm_sign(pb) * perm_sign(pk));
        }
      });
    } else {
      run(kind, [&] {
        auto s = mb::swap_spin(e->clone()), t = mb::swap_spin(s->clone());
        if (show(t) != given) errs.push_back("swapping twice: " + show(t));
        if (g.labelled) {
          auto f = [](int k) { return k == 0 ? 0 : 3 - k; };
          vector<vector<int>> ids;
          for (auto& i : ext) ids.push_back({tab(u8(i.label()).find("↑") != string::npos ? mb::make_spinbeta(i) : mb::make_spinalpha(i))});
          (void)f;
          add("swap_spin", s, "so", ids, some, false);
        } else {
          // add labels and remove them again
          container::map<Index, Index> to;
          for (auto& i : get_used_indices<container::set<Index, Index::LabelCompare>>(e)) to.emplace(i, r.chance(50) ? mb::make_spinalpha(i) : mb::make_spinbeta(i));
          auto a = mb::append_spin(e->clone(), to);
          a->visit([](ExprPtr& q) { if (q->is<AbstractTensor>()) q->as<AbstractTensor>()._reset_tags(); }, true);
          auto b = mb::remove_spin(a);
          if (show(b) != given) errs.push_back("adding and removing: " + show(b));
        }
      });
    }
    for (auto& q : errs) if (q.size() > 400) q.resize(400);
    auto quoted = [](auto& v) { return jlist(v, [](auto& s) { return js(s); }); };
    string as;
    for (int q = 0; q < 2; ++q) {
      string row;
      for (auto& i : ext) row += (row.empty() ? "" : ",") + std::to_string((i.label()[0] == L'i' ? 0 : 2 * N) + r.range(1, N));
      as += (q ? "," : "") + string("[") + row + "]";
    }
    out.line("{\"id\":" + std::to_string(c) + ",\"kind\":" + js(kind) + ",\"m\":" + std::to_string(N) + ",\"in\":" + in + ",\"ext\":" + jints(extn) +
             ",\"idx\":" + tab.json() + ",\"as\":[" + as + "],\"out\":" + jlist(outs, [](auto& s) { return s; }) + ",\"names\":" + quoted(names) + ",\"shows\":" + quoted(shows) + ",\"show\":" + js(given) + ",\"err\":" + quoted(errs) + "}");
  }
}
