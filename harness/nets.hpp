// Random tensor networks and their equivalent presentations.
#pragma once
#include "common.hpp"
namespace vf {

// the index spaces: i (occupied), a (virtual), p = i + a, K (auxiliary), with
// per-case numbers of orbitals
struct Dims { int ni = 2, na = 2, nk = 2; };
inline std::shared_ptr<IndexSpaceRegistry> net_registry(bool real_field = false) {
  auto isr = std::make_shared<IndexSpaceRegistry>();
  isr->add(L"i", 0b001, is_vacuum_occupied, is_reference_occupied, is_hole)
      .add(L"a", 0b010, is_particle)
      .add_union(L"p", {L"i", L"a"}, is_complete)
      .add(L"K", 0b100);
  return isr;
}
inline Range net_range(const Index& i, const Dims& d) {
  auto b = i.space().base_key();
  if (b == L"i") return {0, d.ni};
  if (b == L"a") return {d.ni, d.na};
  if (b == L"p") return {0, d.ni + d.na};
  return {12, d.nk};
}

struct Sig { wstring label; Symmetry sym; BraKetSymmetry bk; ColumnSymmetry cs; string bra, ket, aux; bool op = false; Statistics st = Statistics::FermiDirac; };
struct NIdx { char sp; bool ext; int ord; vector<int> proto; };
struct NTen { Sig sig; vector<int> bra, ket, aux; };
struct Net { vector<NIdx> idx; vector<NTen> t; vector<ExprPtr> scalars; int num = 1, den = 1; };

// a presentation: how to write the network down
struct Pres { vector<int> ord; vector<int> order; vector<vector<int>> pb, pk; vector<bool> flip; int sign = 1; };

inline int perm_sign(vector<int> p) {
  int s = 1;
  for (size_t i = 0; i < p.size(); ++i)
    for (size_t j = i + 1; j < p.size(); ++j) if (p[i] > p[j]) s = -s;
  return s;
}
inline vector<int> iota(size_t n) { vector<int> v(n); for (size_t i = 0; i < n; ++i) v[i] = int(i); return v; }

inline Pres identity(const Net& n) {
  Pres p;
  for (auto& i : n.idx) p.ord.push_back(i.ord);
  p.order = iota(n.t.size());
  for (auto& t : n.t) { p.pb.push_back(iota(t.bra.size())); p.pk.push_back(iota(t.ket.size())); p.flip.push_back(false); }
  return p;
}
// base_ord: contracted indices get ordinals from here on
inline Pres random_pres(const Net& n, Rng& r, int base_ord = 30, bool reorder = true) {
  Pres p = identity(n);
  vector<int> fresh = iota(n.idx.size() + 4);
  r.shuffle(fresh);
  for (size_t i = 0; i < n.idx.size(); ++i) if (!n.idx[i].ext) p.ord[i] = base_ord + fresh[i];
  if (reorder) {
    // operators keep their relative order
    vector<int> ops;
    for (size_t i = 0; i < n.t.size(); ++i) if (n.t[i].sig.op) ops.push_back(int(i));
    r.shuffle(p.order);
    size_t k = 0;
    for (auto& o : p.order) if (n.t[o].sig.op) o = ops[k++];
  }
  for (size_t i = 0; i < n.t.size(); ++i) {
    auto& t = n.t[i];
    if (t.sig.sym != Symmetry::Nonsymm) {
      r.shuffle(p.pb[i]);
      r.shuffle(p.pk[i]);
      if (t.sig.sym == Symmetry::Antisymm) p.sign *= perm_sign(p.pb[i]) * perm_sign(p.pk[i]);
    } else if (t.sig.cs == ColumnSymmetry::Symm && t.bra.size() == t.ket.size()) {
      auto q = iota(t.bra.size());
      r.shuffle(q);
      p.pb[i] = q;
      p.pk[i] = q;
    }
    if (t.sig.bk == BraKetSymmetry::Symm && !t.sig.op && r.chance(50)) p.flip[i] = true;
  }
  return p;
}
inline Index net_index(const Net& n, const Pres& p, int k) {
  auto& x = n.idx[k];
  wstring lab(1, wchar_t(x.sp));
  lab += L"_" + std::to_wstring(p.ord[k]);
  if (x.proto.empty()) return Index(lab);
  container::vector<Index> pr;
  for (int q : x.proto) pr.push_back(net_index(n, p, q));
  return Index(lab, pr);
}
inline ExprPtr net_expr(const Net& n, const Pres& p) {
  auto prod = std::make_shared<Product>();
  for (auto& s : n.scalars) prod->append(1, s->clone());
  for (int o : p.order) {
    auto& t = n.t[o];
    container::svector<Index> b, k, x;
    for (int q : p.pb[o]) b.push_back(t.bra[q] < 0 ? Index::null : net_index(n, p, t.bra[q]));
    for (int q : p.pk[o]) k.push_back(t.ket[q] < 0 ? Index::null : net_index(n, p, t.ket[q]));
    for (int q : t.aux) x.push_back(net_index(n, p, q));
    if (p.flip[o]) std::swap(b, k);
    if (t.sig.op) {
      if (t.sig.st == Statistics::FermiDirac) prod->append(1, ex<FNOperator>(cre(k), ann(b), get_default_context().vacuum()));
      else prod->append(1, ex<BNOperator>(cre(k), ann(b), get_default_context().vacuum()));
    } else
      prod->append(1, ex<Tensor>(t.sig.label, bra(b), ket(k), aux(x), t.sig.sym, t.sig.bk, t.sig.cs));
  }
  prod->scale(rational(n.num * p.sign, n.den));
  return ExprPtr(prod);
}

struct NetOptions { int max_tensors = 4; bool protos = false, aux = true, ops = false, hyper = false, traces = false; int max_ext = 4; bool bk = true; bool nonsymm_cols = true; };

inline Sig random_sig(Rng& r, int k, const NetOptions& o) {
  static const wchar_t* names[] = {L"g", L"t", L"f", L"h", L"u", L"w", L"B", L"X"};
  Sig s;
  s.label = names[k];
  int rank = r.chance(35) ? 1 : r.chance(85) ? 2 : 3;
  int c = int(r.below(100));
  s.sym = c < 45 ? Symmetry::Antisymm : c < 60 ? Symmetry::Symm : Symmetry::Nonsymm;
  s.cs = s.sym == Symmetry::Nonsymm && o.nonsymm_cols && r.chance(40) ? ColumnSymmetry::Nonsymm : ColumnSymmetry::Symm;
  c = int(r.below(100));
  s.bk = !o.bk ? (c < 50 ? BraKetSymmetry::Nonsymm : BraKetSymmetry::Conjugate) : c < 40 ? BraKetSymmetry::Nonsymm : c < 70 ? BraKetSymmetry::Conjugate : BraKetSymmetry::Symm;
  static const char sp[] = {'i', 'a', 'p'};
  bool uniform = r.chance(60);
  char cb = sp[r.below(3)], ck = sp[r.below(3)];
  for (int q = 0; q < rank; ++q) {
    s.bra += uniform ? cb : sp[r.below(3)];
    s.ket += uniform ? ck : sp[r.below(3)];
  }
  if (s.sym == Symmetry::Nonsymm && r.chance(15) && rank > 1) (r.chance(50) ? s.bra : s.ket).pop_back();
  if (o.aux && r.chance(25)) s.aux = "K";
  if (o.aux && r.chance(5)) s.aux = "KK";
  return s;
}

// pairs the open slots of the tensors at random; what is left is external
inline Net random_net(Rng& r, const NetOptions& o, vector<Sig>* sigs_in = nullptr) {
  Net n;
  vector<Sig> sigs;
  if (sigs_in) sigs = *sigs_in;
  else { int ns = r.range(1, 3); for (int k = 0; k < ns; ++k) sigs.push_back(random_sig(r, k, o)); }
  int nt = r.range(1, o.max_tensors);
  for (int k = 0; k < nt; ++k) {
    NTen t;
    t.sig = r.pick(sigs);
    t.bra.assign(t.sig.bra.size(), -1);
    t.ket.assign(t.sig.ket.size(), -1);
    t.aux.assign(t.sig.aux.size(), -1);
    n.t.push_back(t);
  }
  if (o.ops && r.chance(80)) {
    int no = r.chance(60) ? 1 : 2;
    auto st = r.chance(75) ? Statistics::FermiDirac : Statistics::BoseEinstein;
    for (int k = 0; k < no; ++k) {
      NTen t;
      Sig& s = t.sig;
      s.op = true;
      s.st = st;
      s.sym = st == Statistics::FermiDirac ? Symmetry::Antisymm : Symmetry::Symm;
      s.bk = BraKetSymmetry::Nonsymm;
      s.cs = ColumnSymmetry::Symm;
      int nb = r.range(0, 2), nk = r.range(nb ? 0 : 1, 2);
      for (int q = 0; q < nb; ++q) s.bra += "iap"[r.below(3)];
      for (int q = 0; q < nk; ++q) s.ket += "iap"[r.below(3)];
      t.bra.assign(nb, -1);
      t.ket.assign(nk, -1);
      n.t.push_back(t);
    }
    nt = int(n.t.size());
  }
  struct Slot { int ten, kind, pos; char sp; };
  vector<Slot> slots;
  for (int k = 0; k < nt; ++k) {
    for (size_t q = 0; q < n.t[k].bra.size(); ++q) slots.push_back({k, 0, int(q), n.t[k].sig.bra[q]});
    for (size_t q = 0; q < n.t[k].ket.size(); ++q) slots.push_back({k, 1, int(q), n.t[k].sig.ket[q]});
    for (size_t q = 0; q < n.t[k].aux.size(); ++q) slots.push_back({k, 2, int(q), n.t[k].sig.aux[q]});
  }
  r.shuffle(slots);
  auto at = [&](const Slot& s) -> int& { auto& t = n.t[s.ten]; return s.kind == 0 ? t.bra[s.pos] : s.kind == 1 ? t.ket[s.pos] : t.aux[s.pos]; };
  vector<bool> used(slots.size(), false);
  int next = 1;
  int keep = r.range(0, o.max_ext);   // slots deliberately left open
  for (size_t x = 0; x < slots.size(); ++x) {
    if (used[x]) continue;
    vector<size_t> cand;
    for (size_t y = x + 1; y < slots.size(); ++y) {
      if (used[y] || slots[y].sp != slots[x].sp) continue;
      if (slots[x].ten == slots[y].ten && (!o.traces || slots[x].kind == 2)) continue;
      if (slots[x].kind == 2 ? slots[y].kind == 2 : slots[x].kind + slots[y].kind == 1) cand.push_back(y);
    }
    used[x] = true;
    int id = int(n.idx.size());
    if (cand.empty() || keep > 0) {
      --keep;
      n.idx.push_back({slots[x].sp, true, next++, {}});
      at(slots[x]) = id;
      continue;
    }
    n.idx.push_back({slots[x].sp, false, next++, {}});
    at(slots[x]) = id;
    size_t y = r.pick(cand);
    used[y] = true;
    at(slots[y]) = id;
    if (slots[x].kind == 2 && o.hyper)
      for (size_t z : cand) if (!used[z] && r.chance(50)) {
        bool same = false;
        for (size_t w = 0; w < slots.size(); ++w) if (used[w] && at(slots[w]) == id && slots[w].ten == slots[z].ten) same = true;
        if (!same) { used[z] = true; at(slots[z]) = id; }
      }
  }
  if (o.protos && r.chance(60)) {
    // some virtual indices depend on one or two occupied ones; an external
    // index can depend on external ones only
    vector<int> occ, occ_ext;
    for (size_t k = 0; k < n.idx.size(); ++k) if (n.idx[k].sp == 'i') { occ.push_back(int(k)); if (n.idx[k].ext) occ_ext.push_back(int(k)); }
    for (auto& x : n.idx) {
      auto& from = x.ext ? occ_ext : occ;
      if (x.sp == 'a' && !from.empty() && r.chance(60)) {
        x.proto.push_back(r.pick(from));
        int q = r.pick(from);
        if (r.chance(50) && q != x.proto[0]) x.proto.push_back(q);
      }
    }
  }
  static const int nums[] = {1, 1, 1, -1, 2, -3, 5};
  static const int dens[] = {1, 1, 2, 4, 3};
  n.num = nums[r.below(7)];
  n.den = dens[r.below(5)];
  return n;
}
// a hub whose slots are attached to satellites that are mostly alike: what
// tells the slots of the hub apart then decides the canonical form
inline Net random_star(Rng& r, const NetOptions& o) {
  Net n;
  Sig hub = random_sig(r, int(r.below(8)), o);
  hub.label = r.chance(50) ? L"H" : L"z";  // before or after its satellites
  hub.aux = r.chance(60) ? string(r.range(1, 3), 'K') : "";
  if (r.chance(30)) { hub.bra = hub.ket = ""; hub.sym = Symmetry::Nonsymm; hub.cs = ColumnSymmetry::Symm; if (hub.aux.size() < 2) hub.aux = "KKK"; }
  NTen h;
  h.sig = hub;
  auto satellite = [&](wstring lab, string b, string k, string x) {
    NTen t;
    t.sig.label = lab; t.sig.sym = Symmetry::Nonsymm; t.sig.bk = BraKetSymmetry::Nonsymm; t.sig.cs = ColumnSymmetry::Symm;
    t.sig.bra = b; t.sig.ket = k; t.sig.aux = x;
    return t;
  };
  int next = 1, ext = r.chance(25) ? 1 : 0;
  bool pairs = r.chance(30);  // satellites that hold a bra and a ket slot of the hub
  n.t.push_back(h);
  auto fresh = [&](char sp, bool e) { n.idx.push_back({sp, e, next++, {}}); return int(n.idx.size()) - 1; };
  auto label = [&] { return r.chance(85) ? L"v" : L"w"; };
  vector<int> hb, hk, hx;
  for (char c : hub.bra) { bool e = ext > 0 && r.chance(30); if (e) --ext; hb.push_back(fresh(c, e)); }
  for (char c : hub.ket) { bool e = ext > 0 && r.chance(30); if (e) --ext; hk.push_back(fresh(c, e)); }
  for (char c : hub.aux) hx.push_back(fresh(c, false));
  n.t[0].bra = hb; n.t[0].ket = hk; n.t[0].aux = hx;
  vector<bool> done(n.idx.size(), false);
  for (size_t q = 0; q < hb.size(); ++q) {
    if (n.idx[hb[q]].ext) continue;
    size_t p = r.below(hk.size() + 1);
    if (pairs && p < hk.size() && !done[hk[p]] && !n.idx[hk[p]].ext) {
      auto t = satellite(label(), string(1, n.idx[hk[p]].sp), string(1, n.idx[hb[q]].sp), "");
      t.bra = {hk[p]}; t.ket = {hb[q]};
      done[hk[p]] = true;
      n.t.push_back(t);
    } else {
      auto t = satellite(label(), "", string(1, n.idx[hb[q]].sp), "");
      t.ket = {hb[q]};
      n.t.push_back(t);
    }
  }
  for (int k : hk) if (!n.idx[k].ext && !done[k]) { auto t = satellite(label(), string(1, n.idx[k].sp), "", ""); t.bra = {k}; n.t.push_back(t); }
  for (int k : hx) { auto t = satellite(label(), "", "", "K"); t.aux = {k}; n.t.push_back(t); }
  return n;
}
inline Dims choose_dims(const Net& n, Rng& r, double budget = 300) {
  Dims best{2, 2, 2};
  auto cost = [&](const Dims& d) {
    double c = 1;
    for (auto& x : n.idx) if (!x.ext) c *= x.sp == 'i' ? d.ni : x.sp == 'a' ? d.na : x.sp == 'p' ? d.ni + d.na : d.nk;
    return c;
  };
  // grow while affordable
  for (int it = 0; it < 6; ++it) {
    Dims d = best;
    (it % 3 == 0 ? d.ni : it % 3 == 1 ? d.na : d.nk) += 1;
    if (d.ni <= 4 && d.na <= 4 && d.nk <= 3 && cost(d) <= budget) best = d;
  }
  if (cost(best) > budget * 4) best = r.chance(50) ? Dims{2, 1, 2} : Dims{1, 2, 2};
  if (cost(best) > budget * 10) best = Dims{1, 1, 1};
  (void)r;
  return best;
}
// assignments of the external indices (ids in table) to try
inline string assignments(const vector<std::pair<int, Range>>& ext, Rng& r, int count) {
  vector<string> rows;
  for (int c = 0; c < count; ++c) {
    vector<int> v;
    std::map<int, vector<int>> fresh;
    for (auto& [id, rg] : ext) {
      // mostly distinct values, so that antisymmetric tensors do not vanish
      int val = 0;
      for (int tries = 0; tries < 6; ++tries) {
        val = rg.lo + 1 + int(r.below(rg.n));
        if (std::find(v.begin(), v.end(), val) == v.end()) break;
      }
      v.push_back(val);
    }
    rows.push_back(jints(v));
    if (ext.empty()) break;
  }
  return jlist(rows, [](auto& s) { return s; });
}
}  // namespace vf
