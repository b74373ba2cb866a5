// Replays behaviours of spec/Context.tla into core/context.
#include "replay.hpp"
#include <SeQuant/core/context.hpp>
using namespace vf;
using Resetter = decltype(set_scoped_default_context(Context{}));

struct Machine {
  vector<Context> pool = vector<Context>(3);
  const json* tr = nullptr;
  Machine() { reset_default_context(); }
  ~Machine() { scopes_down(0); reset_default_context(); }
  vector<std::unique_ptr<Resetter>> scopes;
  void scopes_down(size_t n) { while (scopes.size() > n) scopes.pop_back(); }
  static Statistics stat(const string& s) { return s == "A" ? Statistics::Arbitrary : s == "F" ? Statistics::FermiDirac : Statistics::BoseEinstein; }
  static CanonicalizationMethod cmeth(int x) { return x == 1 ? CanonicalizationMethod::Complete : CanonicalizationMethod::Topological; }
  static int bit(const string& x) { return x == "i" ? 1 : x == "a" ? 2 : 4; }
  json see(const Context& c) {
    json f;
    f["vac"] = int(c.vacuum()) == int(Vacuum::Physical) ? 0 : c.vacuum() == Vacuum::SingleProduct ? 1 : 2;
    f["metric"] = c.metric() == IndexSpaceMetric::Unit ? 0 : 1;
    f["strict"] = c.assert_strict_braket_symmetry() ? 0 : 1;
    f["basis"] = c.spbasis() == SPBasis::Spinor ? 0 : 1;
    f["ord"] = c.first_dummy_index_ordinal() == 100 ? 0 : c.first_dummy_index_ordinal() == 7 ? 1 : c.first_dummy_index_ordinal() == 1000 ? 2 : 9;
    auto o = c.canonicalization_options();
    f["canon"] = !o ? 0 : o->method == CanonicalizationMethod::Complete ? 1 : o->method == CanonicalizationMethod::Topological ? 2 : 9;
    f["bkt"] = c.braket_typesetting() == BraKetTypesetting::ContraSub ? 0 : 1;
    f["slot"] = c.braket_slot_typesetting() == BraKetSlotTypesetting::TensorPackage ? 0 : 1;
    json r{{"f", f}, {"reg", c.index_space_registry() != nullptr}, {"sp", json::array()}, {"vs", ""}};
    if (auto reg = c.index_space_registry()) {
      for (auto& s : *reg) if (s) r["sp"].push_back(u8(s.base_key()));
      for (auto l : {L"i", L"a", L"u"})
        if (reg->contains(std::wstring(l)) != (std::count(r["sp"].begin(), r["sp"].end(), json(u8(l))) > 0)) r["sp"].push_back("inconsistent");
      auto t = reg->vacuum_occupied_space(true);
      r["vs"] = t.to_int32() == 1 ? "i" : t.to_int32() == 2 ? "a" : t.to_int32() == 4 ? "u" : "";
    }
    return r;
  }
  json see(const json& want) {
    json r;
    for (auto s : {"A", "F", "B"}) r["def"][s] = see(get_default_context(stat(s)));
    for (size_t k = 0; k < 3; ++k) {
      r["pool"].push_back(see(pool[k]));
      json row = json::array();
      for (size_t j = 0; j < 3; ++j) {
        int w = want["eq"][k][j];
        row.push_back(w == 2 ? 2 : pool[k] == pool[j] ? (pool[k] != pool[j] ? 8 : 1) : (pool[k] != pool[j] ? 0 : 9));
      }
      r["eq"].push_back(row);
    }
    return r;
  }
  container::map<Statistics, Context> map(const json& m) {
    container::map<Statistics, Context> r;
    for (auto& [s, k] : m.items()) r.emplace(stat(s), pool[int(k) - 1]);
    return r;
  }
  json step(const json& o) {
    string op = o["op"];
    auto K = [&]() -> Context& { return pool[int(o["k"]) - 1]; };
    auto J = [&]() -> Context& { return pool[int(o["j"]) - 1]; };
    auto sp = [&] { string x = o["x"]; return IndexSpace(w32(x), IndexSpace::Type(bit(x))); };
    if (op == "new") {
      if (o["reg"]) K() = Context({.index_space_registry = IndexSpaceRegistry{}});
      else K() = Context{};
    } else if (op == "field") {
      string f = o["f"]; int x = o["x"];
      if (f == "vac") K().set(x == 0 ? Vacuum::Physical : x == 1 ? Vacuum::SingleProduct : Vacuum::MultiProduct);
      else if (f == "metric") K().set(x == 0 ? IndexSpaceMetric::Unit : IndexSpaceMetric::General);
      else if (f == "strict") K().set(x == 0 ? AssertStrictBraKetSymmetry::Yes : AssertStrictBraKetSymmetry::No);
      else if (f == "basis") K().set(x == 0 ? SPBasis::Spinor : SPBasis::Spinfree);
      else if (f == "ord") K().set_first_dummy_index_ordinal(x == 0 ? 100 : x == 1 ? 7 : 1000);
      else if (f == "canon") {
        if (x == 0) {  // cannot be unset in place
          Context c({.index_space_registry_shared_ptr = K().mutable_index_space_registry(), .vacuum = K().vacuum(), .metric = K().metric(),
                     .assert_strict_braket_symmetry = K().assert_strict_braket_symmetry(), .spbasis = K().spbasis(),
                     .first_dummy_index_ordinal = K().first_dummy_index_ordinal(), .braket_typesetting = K().braket_typesetting(),
                     .braket_slot_typesetting = K().braket_slot_typesetting()});
          K() = c;
        } else { CanonicalizeOptions co; co.method = cmeth(x); K().set(co); }
      }
      else if (f == "bkt") K().set(x == 0 ? BraKetTypesetting::ContraSub : BraKetTypesetting::ContraSuper);
      else if (f == "slot") K().set(x == 0 ? BraKetSlotTypesetting::TensorPackage : BraKetSlotTypesetting::Naive);
    } else if (op == "copy") K() = J();
    else if (op == "get") K() = get_default_context(stat(o["s"]));
    else if (op == "clone") K() = J().clone();
    else if (op == "sharereg") K().set(J().mutable_index_space_registry());
    else if (op == "copyreg") K().set(*J().index_space_registry());
    else if (op == "add") K().mutable_index_space_registry()->add(sp());
    else if (op == "adddef") get_default_context(stat(o["s"])).mutable_index_space_registry()->add(sp());
    else if (op == "vacspace") K().mutable_index_space_registry()->vacuum_occupied_space(w32(string(o["x"])));
    else if (op == "set") set_default_context(K(), stat(o["s"]));
    else if (op == "setmap") set_default_context(map(o["m"]));
    else if (op == "reset") reset_default_context();
    else if (op == "enter") scopes.emplace_back(new Resetter(set_scoped_default_context(map(o["m"]))));
    else if (op == "enter1") scopes.emplace_back(new Resetter(set_scoped_default_context(K())));
    else if (op == "entersame") scopes.emplace_back(new Resetter(set_scoped_default_context(Context(get_default_context()))));
    else if (op == "leave") scopes_down(scopes.size() - size_t(o["n"]));
    else throw std::runtime_error("unknown operation " + op);
    return see(o["see"]);
  }
};
int main(int argc, char** argv) {
  return replay_main(argc, argv, {"sp"}, [] { return std::make_unique<Machine>(); });
}
