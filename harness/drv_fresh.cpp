// Replays behaviours of spec/FreshIndices.tla: temporary indices, index
// factories and user-named indices, from one or several threads.
#include "replay.hpp"
#include <barrier>
#include <thread>
using namespace vf;
static std::shared_ptr<IndexSpaceRegistry> reg;
static vector<Index> pr_, like_;
static const wchar_t* const keys[] = {L"", L"i", L"a"};
static void context(size_t min) {
  set_default_context({.index_space_registry_shared_ptr = reg, .vacuum = Vacuum::SingleProduct, .spbasis = SPBasis::Spinor, .first_dummy_index_ordinal = min});
}
template <class F> void together(int threads, F f) {
  if (threads == 1) { f(0); return; }
  std::barrier start(threads);
  vector<std::thread> t;
  for (int k = 0; k < threads; ++k) t.emplace_back([&, k] { start.arrive_and_wait(); f(k); });
  for (auto& x : t) x.join();
}
struct Machine {
  vector<std::unique_ptr<IndexFactory>> fac;
  Machine() {
    context(4);
    Index::reset_tmp_index();
    for (int k = 0; k < 2; ++k) fac.push_back(std::make_unique<IndexFactory>());
  }
  // the ordinal, provided that the index is what was asked for
  static json ordinal(const Index& i, const IndexSpace& s, const vector<Index>& pr) {
    if (i.space() != s || !(vector<Index>(i.proto_indices().begin(), i.proto_indices().end()) == pr) || !i.ordinal()) return -1;
    if (wstring(i.label()) != wstring(s.base_key()) + L"_" + std::to_wstring(*i.ordinal())) return -2;
    return *i.ordinal();
  }
  json step(const json& op) {
    string o = op["op"];
    auto sp = [](int s) { return reg->retrieve(keys[s]); };
    auto& pr = pr_;
    if (o == "min") { context(op["m"]); return {{"ok", true}}; }
    if (o == "reset") { Index::reset_tmp_index(); return {{"ok", true}}; }
    if (o == "draw") {
      int T = op["threads"], per = op["per"];
      string how = op["how"];
      vector<vector<json>> r(T);
      IndexSpace s[2] = {sp(1), sp(2)};
      together(T, [&](int t) {
        for (int k = 0; k < per; ++k) {
          auto& q = s[(t + k) % 2];
          r[t].push_back(how == "next" ? json(Index::next_tmp_index()) : how == "space" ? ordinal(Index::make_tmp_index(q), q, {}) : ordinal(Index::make_tmp_index(q, pr), q, pr));
        }
      });
      json all = json::array();
      for (auto& v : r) for (size_t k = 0; k < v.size(); ++k) { all.push_back(v[k]); if (k && !(v[k - 1] < v[k])) all.push_back("not increasing in a thread"); }
      return {{"got", all}};
    }
    if (o == "user") {
      int s = op["s"], n = op["o"];
      bool ok = true;
      try {
        auto i = op["how"] == "label" ? Index(wstring(keys[s]) + L"_" + std::to_wstring(n)) : Index(sp(s), size_t(n));
        if (ordinal(i, sp(s), {}) != n) ok = !(n < 100);
      } catch (const std::exception&) { ok = false; }
      return {{"ok", ok}};
    }
    int k = int(op["k"]) - 1;
    if (o == "factory") {
      std::set<std::pair<wstring, size_t>> rej;
      for (int s = 1; s <= 2; ++s) for (auto& x : op["rej"][s - 1]) rej.insert({keys[s], size_t(x)});
      auto valid = [rej](const Index& i) { return !rej.count({wstring(i.space().base_key()), *i.ordinal()}); };
      if (op["how"] == "plain") fac[k] = std::make_unique<IndexFactory>();
      else if (op["how"] == "default") fac[k] = std::make_unique<IndexFactory>(valid);
      else fac[k] = std::make_unique<IndexFactory>(valid, size_t(op["m"]));
      return {{"ok", true}};
    }
    if (o == "make") {
      int T = op["threads"];
      vector<vector<json>> one(T), two(T);
      IndexSpace s[2] = {sp(1), sp(2)};
      // from an index with proto-indices, whose own ordinal does not matter
      auto& like = like_;
      bool idx = op["how"] == "index";
      int n[2] = {op["per"][0], op["per"][1]};
      together(T, [&](int t) {
        for (int x = 0; x < std::max(n[0], n[1]); ++x)
          for (int w = 0; w < 2; ++w) {
            int q = (w + t) % 2;
            if (x < n[q]) (q ? two : one)[t].push_back(idx ? ordinal(fac[k]->make(like[q]), s[q], pr) : ordinal(fac[k]->make(s[q]), s[q], {}));
          }
      });
      json r{{"one", json::array()}, {"two", json::array()}};
      for (auto& v : one) for (auto& x : v) r["one"].push_back(x);
      for (auto& v : two) for (auto& x : v) r["two"].push_back(x);
      return r;
    }
    throw std::runtime_error("op " + o);
  }
};
int main(int argc, char** argv) {
  reg = std::make_shared<IndexSpaceRegistry>();
  reg->add(L"i", 1).add(L"a", 2);
  context(100);
  pr_ = {Index(L"i_1")};
  like_ = {Index(Index(L"i_1"), pr_), Index(Index(L"a_2"), pr_)};
  return replay_main(argc, argv, {"got", "one", "two"}, [] { return std::make_unique<Machine>(); });
}
