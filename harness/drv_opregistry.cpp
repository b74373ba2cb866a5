// Replays behaviours of spec/OpRegistry.tla into the operator registry and the
// many-body context.
#include "replay.hpp"
#include <SeQuant/domain/mbpt/context.hpp>
using namespace vf;
namespace mb = sequant::mbpt;
using Resetter = decltype(mb::set_scoped_default_mbpt_context(mb::Context{}));

static const std::map<string, wstring> special{
    {"lambda", L"λ"}, {"A^", L"Â"}, {"S^", L"Ŝ"}, {"P^", L"P̂"}, {"delta", L"δ"}, {"theta", L"θ"},
    {"a~", L"ã"}, {"f~", L"f̃"}, {"gamma", L"γ"}, {"kappa", L"κ"}};
static wstring label(const string& l) { auto it = special.find(l); return it == special.end() ? w32(l) : it->second; }
static string name(const wstring& w) { for (auto& [k, v] : special) if (v == w) return k; return u8(w); }
static string cls(mb::OpClass c) { return c == mb::OpClass::Ex ? "ex" : c == mb::OpClass::Deex ? "deex" : "gen"; }
static mb::OpClass cls(const string& c) { return c == "ex" ? mb::OpClass::Ex : c == "deex" ? mb::OpClass::Deex : mb::OpClass::Gen; }
static string herm(Hermiticity h) { return h == Hermiticity::Hermitian ? "H" : h == Hermiticity::AntiHermitian ? "A" : "N"; }
static Hermiticity herm(const string& h) { return h == "H" ? Hermiticity::Hermitian : h == "A" ? Hermiticity::AntiHermitian : Hermiticity::NonHermitian; }

struct Machine {
  vector<mb::Context> pool = vector<mb::Context>(3);
  vector<std::unique_ptr<Resetter>> scopes;
  Machine() { mb::reset_default_mbpt_context(); }
  ~Machine() { down(0); mb::reset_default_mbpt_context(); }
  void down(size_t n) { while (scopes.size() > n) scopes.pop_back(); }
  static bool has(const mb::Context& c) { try { return bool(c.op_registry()); } catch (const std::exception&) { return false; } }
  template <class F> static string or_fail(F f) { try { return f(); } catch (const std::exception&) { return "!"; } }
  json see(const mb::Context& c, const json& asked) {
    json r{{"csv", c.csv() == mb::CSV::Yes}, {"reg", has(c)}};
    if (!has(c)) return r;
    auto& g = *c.op_registry();
    json ops = json::array();
    std::set<string> all;
    for (auto&& l : g.ops()) {
      if (!all.insert(name(l)).second) ops.push_back("twice " + name(l));
      ops.push_back({{"l", name(l)}, {"c", cls(g.to_class(l))}, {"h", herm(g.hermiticity(l))}});
    }
    size_t n = 0;
    for (auto& [l, k] : g) { ++n; if (!all.count(name(l)) || g.to_class(l) != k) ops.push_back("iteration " + name(l)); }
    if (n != all.size()) ops.push_back("size");
    for (auto& [l, x] : asked.items()) {
      bool in = all.count(l);
      auto w = label(l);
      if (g.contains(w) != in) ops.push_back("contains " + l);
      if ((or_fail([&] { return cls(g.to_class(w)); }) != "!") != in) ops.push_back("class of " + l);
      if ((or_fail([&] { return herm(g.hermiticity(w)); }) != "!") != in) ops.push_back("hermiticity of " + l);
    }
    r["ops"] = ops;
    return r;
  }
  static mb::Context::Options options(const mb::Context& c) {
    return {.csv = c.csv(), .op_registry_ptr = has(c) ? c.mutable_op_registry() : nullptr};
  }
  void apply(const json& o) {
    string op = o["op"];
    int k = o.value("k", 0), j = o.value("j", 0);
    auto at = [&](int n) -> const mb::Context& { return n ? pool[n - 1] : mb::get_default_mbpt_context(); };
    auto K = [&]() -> mb::Context& { return pool[k - 1]; };
    auto reg = [&] { return at(k).mutable_op_registry(); };
    auto l = [&] { return label(o["l"]); };
    if (op == "new") {
      string w = o["what"];
      K() = w == "none" ? mb::Context{} : w == "empty" ? mb::Context({.op_registry = mb::OpRegistry{}})
          : mb::Context({.op_registry_ptr = w == "minimal" ? mb::make_minimal_registry() : mb::make_legacy_registry()});
    } else if (op == "csv") K().set(o["x"] ? mb::CSV::Yes : mb::CSV::No);
    else if (op == "copy") K() = at(j);
    else if (op == "clone") K() = at(j).clone();
    else if (op == "copyreg") K().set(*at(j).op_registry());
    else if (op == "clonereg") K().set(at(j).op_registry()->clone());
    else if (op == "sharereg") K().set(at(j).mutable_op_registry());
    else if (op == "assign") *reg() = *at(j).op_registry();
    else if (op == "assignclone") *reg() = at(j).op_registry()->clone();
    else if (op == "add") { if (o["h"] == "") reg()->add(l(), cls(string(o["c"]))); else reg()->add(l(), cls(string(o["c"])), herm(string(o["h"]))); }
    else if (op == "herm") reg()->set_hermiticity(l(), herm(string(o["h"])));
    else if (op == "remove") reg()->remove(l());
    else if (op == "purge") reg()->purge();
    else if (op == "set") mb::set_default_mbpt_context(K());
    else if (op == "setoptions") mb::set_default_mbpt_context(options(K()));
    else if (op == "reset") mb::reset_default_mbpt_context();
    else if (op == "enter") scopes.emplace_back(new Resetter(mb::set_scoped_default_mbpt_context(at(k))));
    else if (op == "enteroptions") scopes.emplace_back(new Resetter(mb::set_scoped_default_mbpt_context(options(at(k)))));
    else if (op == "leave") down(scopes.size() - size_t(o["n"]));
    else fprintf(stderr, "unknown operation %s\n", op.c_str()), std::exit(3);
  }
  json step(const json& o) {
    bool ok = true;
    try { apply(o); } catch (const std::exception&) { ok = false; }
    const json& want = o["see"];
    auto& asked = want["cls"];
    json r{{"ok", ok}, {"def", see(mb::get_default_mbpt_context(), asked)}};
    for (int k = 0; k < 3; ++k) {
      r["pool"].push_back(see(pool[k], asked));
      json row = json::array();
      for (int j = 0; j < 4; ++j) {
        auto& other = j == 3 ? mb::get_default_mbpt_context() : pool[j];
        int e = pool[k] == other;
        if ((pool[k] != other) == bool(e)) e = 9;
        if (has(pool[k]) && has(other) && e != 9 && pool[k].csv() == other.csv() && (*pool[k].op_registry() == *other.op_registry()) != bool(e)) e = 8;
        row.push_back(want["eq"][k][j] == 2 ? 2 : e);
      }
      r["eq"].push_back(row);
    }
    for (auto& [l, x] : asked.items()) {
      r["cls"][l] = or_fail([&] { return cls(mb::to_op_class(label(l))); });
      r["herm"][l] = or_fail([&] { return herm(mb::op_hermiticity(label(l))); });
    }
    return r;
  }
};
int main(int argc, char** argv) {
  return replay_main(argc, argv, {"ops"}, [] { return std::make_unique<Machine>(); });
}
