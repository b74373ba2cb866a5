// One line for SameValue: e[1] is what went in, the others what came out.
#pragma once
#include "nets.hpp"
namespace vf {
struct Record {
  IdxTable& tab;
  vector<string> es, forms, names, shows;
  string err, at;
  explicit Record(IdxTable& t) : tab(t) {}
  void start(string first, const string& text) { es = {std::move(first)}; forms = {""}; names = {text}; shows = {text}; err = at = ""; }
  void start(const ExprPtr& e) { start(jexpr(e, tab), show(e)); }
  void add(const string& what, const ExprPtr& e, const char* form = "") { add(what, jexpr(e, tab), show(e), form); }
  void add(const string& what, string json, const string& text, const char* form = "") {
    at = what;
    names.push_back(what); es.push_back(std::move(json)); forms.push_back(form); shows.push_back(text);
  }
  template <class F> bool run(const string& what, F&& f) {
    at = what;
    auto q = guarded([&] { f(); });
    if (!q.empty() && err.empty()) err = at + ": " + q;
    return q.empty();
  }
  string json(const string& id, const vector<std::pair<int, Range>>& ext, Rng& r, int count = 3) {
    vector<int> ids;
    for (auto& x : ext) ids.push_back(x.first);
    auto quoted = [](auto& v) { return jlist(v, [](auto& s) { return js(s); }); };
    return "{\"kind\":\"value\",\"id\":" + id + ",\"ext\":" + jints(ids) + ",\"idx\":" + tab.json() + ",\"as\":" + assignments(ext, r, count) + ",\"e\":" + jlist(es, [](auto& s) { return s; }) +
           ",\"f\":" + quoted(forms) + ",\"names\":" + quoted(names) + ",\"shows\":" + quoted(shows) + ",\"err\":" + js(err) + "}";
  }
};
}  // namespace vf
