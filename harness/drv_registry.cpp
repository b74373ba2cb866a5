// Replays behaviours of spec/Registry.tla into core/index_space_registry.
#include "replay.hpp"
using namespace vf;
using R = IndexSpaceRegistry;
using QN = IndexSpace::QuantumNumbers;
using Ty = IndexSpace::Type;

struct Machine {
  vector<std::unique_ptr<R>> pool;
  Machine() { for (int k = 0; k < 3; ++k) pool.push_back(std::make_unique<R>()); }
  static string key(const IndexSpace& s) { return u8(s.base_key()); }
  template <class F> static json or_fail(F f) {
    try { return json(f()); } catch (const std::exception&) { return "!"; }
  }
  static constexpr const char* kinds[] = {"vac", "ref", "complete", "hole", "particle"};
  template <class... A> static auto* _(A...) { return nullptr; }
  template <class G> static auto on(const string& k, G g) {
    if (k == "vac") return g([](auto&& r, auto... a) -> decltype(auto) { return r.vacuum_occupied_space(a...); });
    if (k == "ref") return g([](auto&& r, auto... a) -> decltype(auto) { return r.reference_occupied_space(a...); });
    if (k == "complete") return g([](auto&& r, auto... a) -> decltype(auto) { return r.complete_space(a...); });
    if (k == "hole") return g([](auto&& r, auto... a) -> decltype(auto) { return r.hole_space(a...); });
    return g([](auto&& r, auto... a) -> decltype(auto) { return r.particle_space(a...); });
  }
  template <class G> static void tagged(const string& k, G g) {
    if (k == "vac") g(is_vacuum_occupied);
    else if (k == "ref") g(is_reference_occupied);
    else if (k == "complete") g(is_complete);
    else if (k == "hole") g(is_hole);
    else g(is_particle);
  }
  json light(const R& r, const json& want) {
    json o;
    json sp = json::array();
    size_t n = 0;
    for (auto& s : r) {
      string f = s.field() == Field::Complex ? "C" : "R";
      if (n < want["sp"].size() && want["sp"][n]["f"] == "?") f = "?";
      sp.push_back({{"key", key(s)}, {"t", s.type().to_int32()}, {"q", s.qns().to_int32()},
                    {"n", s.base_key().empty() ? 0 : s.approximate_size()}, {"f", f}});
      ++n;
    }
    if (r.spaces()->size() != n) sp.push_back("size");
    o["sp"] = sp;
    json bt = json::array(), bs = json::array();
    for (auto& t : r.base_space_types()) bt.push_back(t.to_int32());
    auto B = r.base_spaces();
    for (size_t i = 0; i + 1 < B.size(); ++i) if (B[i + 1].type() < B[i].type()) bs.push_back("unsorted");
    std::stable_sort(B.begin(), B.end(), [](auto& a, auto& b) { return std::make_pair(a.type().to_int32(), a.base_key()) < std::make_pair(b.type().to_int32(), b.base_key()); });
    for (auto& s : B) bs.push_back(key(s));
    o["bt"] = bt; o["bs"] = bs;
    o["mask"] = r.physical_particle_attribute_mask();
    for (string k : kinds) o["dt"][k] = on(k, [&](auto f) {
      int quiet = f(r, true).to_int32(), loud = 0;
      try { loud = f(r).to_int32(); } catch (const std::exception&) {}
      return quiet == loud ? quiet : -1;
    });
    return o;
  }
  // the answer, asked in two ways
  template <class A, class B> static json both(A a, B b) {
    json x = or_fail(a), y = or_fail(b);
    return x == y ? x : json("differ: " + x.dump() + " and " + y.dump());
  }
  json full(const R& r, const json& want) {
    json o;
    for (string k : {"a", "ab", "b", "i", "j", "m", "p", "x"}) {
      auto w = w32(k), idx = w + L"_12";
      string x = r.retrieve_ptr(w) ? key(*r.retrieve_ptr(w)) : "!";
      string y = r.retrieve_ptr(idx) ? key(*r.retrieve_ptr(idx)) : "!";
      json z = or_fail([&] { return key(r.retrieve(w)); }), v = or_fail([&] { return key(r.retrieve(idx)); });
      bool c = r.contains(w), d = r.contains(idx), e = r.contains(k + "_3");
      bool same = x == y && z == x && v == x && c == (x != "!") && d == c && e == c;
      o["lk"][k] = same ? x : "differ";
    }
    json at = json::array();
    for (int t = 0; t < 16; ++t)
      for (int q = 0; q < 4; ++q) {
        IndexSpace::Attr a{Ty(t), QN(q)};
        auto p = r.retrieve_ptr(Ty(t), QN(q));
        if (p != r.retrieve_ptr(a) || r.contains(a) != !!p || r.contains(Ty(t), QN(q)) != !!p ||
            or_fail([&] { return key(r.retrieve(a)); }) != (p ? key(*p) : "!") || or_fail([&] { return key(r.retrieve(Ty(t), QN(q))); }) != (p ? key(*p) : "!"))
          at.push_back("differ");
        if (p) at.push_back({{"key", key(*p)}, {"t", p->type().to_int32()}, {"q", p->qns().to_int32()}});
        if (p && (p->type() != Ty(t) || p->qns() != QN(q))) at.push_back("wrong");
      }
    o["at"] = at;
    for (string k : kinds) {
      json row = json::array();
      for (int q = 0; q < 4; ++q) row.push_back(or_fail([&] { return key(on(k, [&](auto f) -> const IndexSpace& { return f(r, QN(q)); })); }));
      o["by"][k] = row;
    }
    json uo = json::array();
    for (int q = 0; q < 4; ++q) uo.push_back(or_fail([&] { return key(r.vacuum_unoccupied_space(QN(q))); }));
    o["uo"] = uo;
    json one = json::array(), two = json::array();
    vector<IndexSpace> sp(r.begin(), r.end());
    for (size_t n = 0; n < sp.size(); ++n) {
      auto& s = sp[n];
      auto l = s.base_key();
      json x;
      x["base"] = both([&] { return r.is_base(s); }, [&] { return r.is_base(l); });
      x["po"] = both([&] { return r.is_pure_occupied(s); }, [&] { return r.is_pure_occupied(l); });
      x["pu"] = both([&] { return r.is_pure_unoccupied(s); }, [&] { return r.is_pure_unoccupied(l); });
      x["co"] = both([&] { return r.contains_occupied(s); }, [&] { return r.contains_occupied(l); });
      x["cu"] = both([&] { return r.contains_unoccupied(s); }, [&] { return r.contains_unoccupied(l); });
      one.push_back(x);
      json row = json::array();
      for (size_t m = 0; m < sp.size(); ++m) {
        auto& u = sp[m];
        auto l2 = u.base_key();
        json y;
        y["i"] = both([&] { return key(r.intersection(s, u)); }, [&] { return key(r.intersection(l, l2)); });
        y["u"] = both([&] { return key(r.unIon(s, u)); }, [&] { return key(r.unIon(l, l2)); });
        y["vi"] = both([&] { return r.valid_intersection(s, u); }, [&] { return r.valid_intersection(l, l2); });
        y["vu"] = both([&] { return r.valid_unIon(s, u); }, [&] { return r.valid_unIon(l, l2); });
        if (n < want["two"].size() && m < want["two"][n].size() && want["two"][n][m]["vu"] == "?") y["vu"] = "?";
        row.push_back(y);
      }
      two.push_back(row);
    }
    o["one"] = one; o["two"] = two;
    return o;
  }
  void apply(const json& o, R& r) {
    string op = o["op"];
    auto J = [&]() -> R& { return *pool[int(o["j"]) - 1]; };
    auto& K = pool[int(o["k"]) - 1];
    auto space = [&](const json& x) {
      return IndexSpace(w32(string(x["key"])), Ty(int(x["t"])), QN(int(x["q"])), (unsigned long)(int(x["n"])), x["f"] == "C" ? Field::Complex : Field::Real);
    };
    if (op == "new") K = std::make_unique<R>();
    else if (op == "clear") r.clear();
    else if (op == "start") {
      auto f = std::make_unique<R>();
      for (auto& x : o["xs"]) f->add(space(x));
      f->vacuum_occupied_space(w32(string(o["v"]))).complete_space(w32(string(o["c"])));
      K = std::move(f);
    } else if (op == "copy") K = std::make_unique<R>(J());
    else if (op == "assign") r = J();
    else if (op == "clone") K = std::make_unique<R>(J().clone());
    else if (op == "move") r = J().clone();
    else if (op == "add") {
      auto& x = o["x"];
      string tag = o["tag"];
      unsigned long n = int(x["n"]);
      auto f = x["f"] == "C" ? Field::Complex : Field::Real;
      if (tag != "") tagged(tag, [&](auto t) { r.add(w32(string(x["key"])), Ty(int(x["t"])), t, QN(int(x["q"])), n); });
      else if (n % 2) r.add(space(x));
      else r.add(w32(string(x["key"])), Ty(int(x["t"])), QN(int(x["q"])), n, f);
    } else if (op == "union" || op == "meet") {
      vector<wstring> l;
      for (auto& x : o["of"]) l.push_back(w32(string(x)));
      auto k = w32(string(o["key"]));
      string tag = o["tag"];
      auto go = [&](std::initializer_list<wstring> c) {
        if (tag == "") { if (op == "union") r.add_union(k, c); else r.add_intersection(k, c); }
        else tagged(tag, [&](auto t) { if (op == "union") r.add_union(k, c, t); else r.add_intersection(k, c, t); });
      };
      if (l.size() == 2) go({l[0], l[1]}); else go({l[0], l[1], l[2]});
    } else if (op == "remove") r.remove(w32(string(o["key"])));
    else if (op == "drop") r.remove(IndexSpace(w32(string(o["key"])), Ty(8)));
    else if (op == "replace") r.replace(space(o["x"]));
    else if (op == "settype") on(o["kind"], [&](auto f) { f(r, Ty(int(o["t"]))); return 0; });
    else if (op == "setspace") on(o["kind"], [&](auto f) { f(r, IndexSpace(L"zz", Ty(int(o["t"])))); return 0; });
    else if (op == "setlabel") on(o["kind"], [&](auto f) { f(r, w32(string(o["key"]))); return 0; });
    else if (op == "setmap") {
      container::map<QN, Ty> m;
      for (auto& e : o["m"]) m.emplace(QN(int(e["q"])), Ty(int(e["t"])));
      on(o["kind"], [&](auto f) { f(r, m); return 0; });
    } else if (op == "mask") r.physical_particle_attribute_mask(bitset_t(int(o["q"])));
    else fprintf(stderr, "unknown operation %s\n", op.c_str()), std::exit(3);
  }
  json step(const json& o) {
    json see;
    size_t k = int(o["k"]) - 1;
    bool ok = true;
    try { apply(o, *pool[k]); } catch (const std::exception&) { ok = false; }
    see["ok"] = ok;
    for (size_t j = 0; j < 3; ++j) {
      see["all"].push_back(light(*pool[j], o["see"]["all"][j]));
      see["eq"].push_back(*pool[j] == *pool[k]);
    }
    see["this"] = full(*pool[k], o["see"]["this"]);
    return see;
  }
};
int main(int argc, char** argv) {
  TensorCanonicalizer::register_instance(std::make_shared<DefaultTensorCanonicalizer>());
  return replay_main(argc, argv, {"at"}, [] { return std::make_unique<Machine>(); });
}
