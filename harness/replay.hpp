// Replays behaviours of a state-machine specification into the real code.
#pragma once
#include <nlohmann/json.hpp>
#include <fstream>
#include <functional>
#include <set>
#include <string>
#include "common.hpp"
namespace vf {
using json = nlohmann::json;
// sets are written as lists in no particular order: sort those under the given keys
inline void sort_sets(json& j, const std::set<string>& keys) {
  if (j.is_object())
    for (auto& [k, v] : j.items()) {
      sort_sets(v, keys);
      if (keys.count(k) && v.is_array()) std::sort(v.begin(), v.end());
    }
  else if (j.is_array())
    for (auto& v : j) sort_sets(v, keys);
}
inline string first_diff(const json& want, const json& got, const string& at = "") {
  if (want == got) return "";
  if (want.is_object() && got.is_object()) {
    for (auto& [k, v] : want.items()) {
      if (!got.contains(k)) return at + "." + k + ": missing";
      auto d = first_diff(v, got[k], at + "." + k);
      if (!d.empty()) return d;
    }
    return "";  // extra keys are not compared
  }
  if (want.is_array() && got.is_array() && want.size() == got.size()) {
    for (size_t i = 0; i < want.size(); ++i) {
      auto d = first_diff(want[i], got[i], at + "[" + std::to_string(i + 1) + "]");
      if (!d.empty()) return d;
    }
    return "";
  }
  return at + ": the specification says " + want.dump() + ", the code " + got.dump();
}
// Machine: has `json step(const json& op)`, giving what can be seen afterwards
template <class Make>
int replay_main(int argc, char** argv, const std::set<string>& sets, Make make) {
  if (argc < 3) return 2;
  Out out(argv[1]);
  std::ifstream in(argv[2]);
  string line;
  for (size_t t = 0; std::getline(in, line); ++t) {
    auto tr = json::parse(line);
    json r{{"t", t}, {"steps", tr.size()}};
    {
      auto m = make();
      for (size_t i = 0; i < tr.size(); ++i) {
        json want = tr[i]["see"], got;
        string err = guarded([&] { got = m->step(tr[i]); });
        string d;
        if (!err.empty()) d = "the code threw " + err;
        else { sort_sets(want, sets); sort_sets(got, sets); d = first_diff(want, got); }
        if (!d.empty()) { r["step"] = i; r["diff"] = d; r["key"] = tr[i]["op"]; break; }
      }
    }
    out.line(r.dump());
  }
  return 0;
}
}  // namespace vf
