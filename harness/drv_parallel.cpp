// Replays behaviours of spec/Parallel.tla: loops, values computed once, single
// objects and default contexts used by several threads. Whoever is inside a
// task, a computation or a constructor stays until told to leave.
#include "replay.hpp"
#include <SeQuant/core/runtime.hpp>
#include <SeQuant/core/utility/memoize.hpp>
#include <SeQuant/core/utility/singleton.hpp>
#include <barrier>
#include <chrono>
#include <condition_variable>
#include <list>
#include <thread>
using namespace vf;
using namespace std::chrono_literals;

// a place where threads stay until told how to go on
struct Gate {
  std::mutex m;
  std::condition_variable cv;
  bool open = false;                 // all may leave
  std::map<int, int> inside;         // by key: how many are there
  std::map<int, vector<json>> exits; // by key: how to leave, one entry each
  json pass(int key) {
    std::unique_lock l(m);
    ++inside[key];
    cv.wait(l, [&] { return open || !exits[key].empty(); });
    --inside[key];
    if (exits[key].empty()) return {{"fail", true}};
    json r = exits[key].front();
    exits[key].erase(exits[key].begin());
    return r;
  }
  void let(int key, json how) { std::scoped_lock l(m); exits[key].push_back(how); cv.notify_all(); }
  void let_all() { std::scoped_lock l(m); open = true; cv.notify_all(); }
  int at(int key) { std::scoped_lock l(m); return inside[key]; }
};
struct Failure {};
static std::atomic<int> made[3];
using Value = vector<int>;
static Value value_of(int v) { return Value(40 + v, v); }

static std::shared_ptr<Gate> door;  // of constructors
struct Plain : Singleton<Plain> {
  static constexpr int id = 1;
  int v;
  static void forget() { instance_accessor().reset(); }
 private:
  friend class Singleton<Plain>;
  Plain(int v = 0) : v(v) { auto d = door; if (d->pass(id).contains("fail")) throw Failure{}; ++made[id]; }
};
struct Needy : Singleton<Needy> {
  static constexpr int id = 2;
  int v;
  static void forget() { instance_accessor().reset(); }
 private:
  friend class Singleton<Needy>;
  Needy(int v) : v(v) { auto d = door; if (d->pass(id).contains("fail")) throw Failure{}; ++made[id]; }
};


// the cache may be any map that memoize takes
template <class C> concept Memoizes = requires(C& c, std::mutex& m, std::condition_variable& cv, const int& k, Value (*f)()) { sequant::detail::memoize(c, m, cv, k, f); };
using Cache = std::conditional_t<Memoizes<std::map<int, std::optional<Value>>>, std::map<int, std::optional<Value>>, container::map<int, std::optional<Value>>>;

struct Asked { int calls = 0, failed = 0, null = 0; vector<const Value*> refs; vector<int> got; };
struct Shared {
  std::mutex m;
  Gate gate;
  std::set<int> running;  // loops
  vector<int> ended;
  bool over = true, failed = false;
  vector<int> tasks;
  std::list<int> list;
  Cache cache;            // values
  std::mutex cache_m;
  std::condition_variable cache_cv;
  std::map<int, Asked> asked;
  int out = 0;            // threads that have not come back
};
struct Machine {
  std::shared_ptr<Shared> s = std::make_shared<Shared>();
  std::shared_ptr<Gate> d = door = std::make_shared<Gate>();
  bool loops = false, memo = false, single = false;
  Machine() { made[1] = made[2] = 0; }
  ~Machine() {
    s->gate.let_all();
    d->let_all();
    for (int k = 0; k < 3000; ++k) {
      { std::scoped_lock l(s->m); if (s->out == 0) break; }
      std::this_thread::sleep_for(1ms);
    }
    Plain::forget();
    Needy::forget();
  }
  template <class F> void fork(F f) {
    { std::scoped_lock l(s->m); ++s->out; }
    std::thread([f = std::move(f), s = s] { f(*s); std::scoped_lock l(s->m); --s->out; }).detach();
  }
  static void task(Shared& s, int k, bool log) {
    { std::scoped_lock l(s.m); s.running.insert(k); }
    bool fail = s.gate.pass(k).contains("fail");
    std::scoped_lock l(s.m);
    s.running.erase(k);
    if (fail) throw Failure{};
    if (log) s.ended.push_back(k);
  }
  json look() {
    std::scoped_lock l(s->m);
    if (loops) return {{"running", s->running}, {"over", s->over}, {"ended", s->ended}, {"failed", s->failed}};
    json r = json::array();
    if (memo)
      for (int k = 1; k <= 3; ++k) {
        auto& a = s->asked[k];
        int busy = s->gate.at(k);
        json got = json::array();
        for (auto* p : a.refs) got.push_back(!p->empty() && *p == value_of(p->front()) ? json(p->front()) : json("garbled"));
        r.push_back({{"busy", busy}, {"waiting", a.calls - int(a.refs.size()) - a.failed - busy}, {"failed", a.failed}, {"got", got}});
      }
    if (single)
      for (int c = 1; c <= 2; ++c) {
        auto& a = s->asked[c];
        int making = d->at(c);
        r.push_back({{"making", making}, {"waiting", a.calls - int(a.got.size()) - a.failed - a.null - making}, {"made", made[c].load()}, {"got", a.got}, {"failed", a.failed}, {"null", a.null}});
      }
    return r;
  }
  // what the specification expects comes about soon, and stays
  json settle(json want) {
    static const std::set<string> sets{"running", "got"};
    sort_sets(want, sets);
    json got;
    for (int k = 0; k < 20000; ++k) {
      got = look();
      sort_sets(got, sets);
      if (first_diff(want, got).empty()) { std::this_thread::sleep_for(400us); return look(); }
      std::this_thread::sleep_for(k < 100 ? 50us : 500us);
    }
    return got;
  }
  template <class T> static void ask(Shared& s, int c, const string& how, int v) {
    auto& a = s.asked[c];
    auto lock = [&] { return std::scoped_lock(s.m); };
    try {
      if (how == "set") {
        int x = T::set_instance(v).v;
        auto l = lock(); a.got.push_back(x);
      } else if (how == "instance") {
        int x = T::instance().v;
        auto l = lock(); a.got.push_back(x);
      } else {
        T* p = T::instance_ptr();
        auto l = lock();
        if (p) a.got.push_back(p->v); else ++a.null;
      }
    } catch (const std::exception&) { auto l = lock(); ++a.failed; }
    catch (const Failure&) { auto l = lock(); ++a.failed; }
  }
  static bool contexts(const json& op) {
    static const Statistics kind[3] = {Statistics::Arbitrary, Statistics::FermiDirac, Statistics::BoseEinstein};
    bool scoped = op["scope"] == "scoped", ok = true;
    for (int round = 0; round < 10; ++round) {
      reset_default_context();
      set_default_context(Context({.first_dummy_index_ordinal = 1000}));
      {
        // a scope around it all leaves no trace
        auto keep = set_scoped_default_context(container::map<Statistics, Context>{{Statistics::Arbitrary, Context({.first_dummy_index_ordinal = 999})}});
        if (!scoped) reset_default_context();
        int n = op["sets"].size();
        std::barrier start(n);
        vector<std::thread> t;
        for (int k = 0; k < n; ++k)
          t.emplace_back([&, st = kind[int(op["sets"][k][0]) - 1], c = size_t(op["sets"][k][1])] {
            Context mine({.first_dummy_index_ordinal = 10 + c});
            start.arrive_and_wait();
            set_default_context(mine, st);
          });
        for (auto& x : t) x.join();
        for (int q = 0; q < 3; ++q) {
          auto got = get_default_context(kind[q]).first_dummy_index_ordinal();
          auto among = [&](const json& a) { for (auto& x : a) if (size_t(x) + 10 == got) return true; return false; };
          auto &own = op["allowed"][q], &any = op["allowed"][0];
          ok &= !own.empty() ? among(own) : !any.empty() ? among(any) : got == (scoped ? 999 : Context().first_dummy_index_ordinal());
        }
      }
      ok &= get_default_context().first_dummy_index_ordinal() == 1000 && get_default_context(Statistics::FermiDirac).first_dummy_index_ordinal() == 1000;
    }
    return ok;
  }
  json step(const json& op) {
    string o = op["op"];
    if (o == "sets") return {{"ok", contexts(op)}};
    if (o == "loop") {
      loops = true;
      int n = op["n"], T = op["threads"];
      string what = op["what"];
      set_num_threads(T);
      s->over = s->failed = false;
      s->ended.clear();
      s->tasks.clear();
      for (int k = 1; k <= n; ++k) s->tasks.push_back(k);
      s->list.assign(s->tasks.begin(), s->tasks.end());
      fork([what](Shared& s) {
        auto f = [&s](int k) { task(s, k, true); };
        bool failed = false;
        try {
        if (what == "for_each") sequant::for_each(s.tasks, f);
        else if (what == "list") sequant::for_each(s.list, f);
        else if (what == "do") sequant::parallel_do([&s](int k) { task(s, k + 1, true); });
        else {
          // the items in the order in which they were reduced, after the initial one
          auto r = sequant::transform_reduce(s.tasks, vector<int>{0}, [](const vector<int>& a, const vector<int>& b) { auto c = a; c.insert(c.end(), b.begin(), b.end()); return c; },
                                             [&s](int k) { task(s, k, true); return vector<int>{k}; });
          std::scoped_lock l(s.m);
          // reductions may be in another order than ends if those follow one another closely
          auto x = r, y = s.ended;
          y.insert(y.begin(), 0);
          std::sort(x.begin(), x.end());
          std::sort(y.begin(), y.end());
          if (x != y || r.front() != 0) s.ended = r;
        }
        } catch (const Failure&) { failed = true; }
        std::scoped_lock l(s.m);
        s.failed = failed;
        s.over = true;
      });
    } else if (o == "end") s->gate.let(op["k"], {{"ok", true}});
    else if (o == "fail") s->gate.let(op["k"], {{"fail", true}});
    else if (o == "call") {
      memo = true;
      int k = op["k"];
      { std::scoped_lock l(s->m); ++s->asked[k].calls; }
      fork([k](Shared& s) {
        try {
          auto& v = sequant::detail::memoize(s.cache, s.cache_m, s.cache_cv, k, [&]() -> Value {
            json how = s.gate.pass(k);
            if (how.contains("fail")) throw Failure{};
            return value_of(how["v"]);
          });
          std::scoped_lock l(s.m);
          s.asked[k].refs.push_back(&v);
        } catch (const Failure&) { std::scoped_lock l(s.m); ++s.asked[k].failed; }
      });
    } else if (o == "computed") s->gate.let(op["k"], {{"v", op["v"]}});
    else if (o == "failed") s->gate.let(op["k"], {{"fail", true}});
    else if (o == "ask") {
      single = true;
      int c = op["c"], v = op["v"];
      string how = op["how"];
      { std::scoped_lock l(s->m); ++s->asked[c].calls; }
      fork([c, v, how](Shared& s) { if (c == 1) ask<Plain>(s, c, how, v); else ask<Needy>(s, c, how, v); });
    } else if (o == "made") { d->let(op["c"], {{"ok", true}}); }
    else if (o == "notmade") d->let(op["c"], {{"fail", true}});
    else if (o == "forget") { if (op["c"] == 1) Plain::forget(); else Needy::forget(); }
    return settle(op["see"]);
  }
};
int main(int argc, char** argv) {
  int rc = replay_main(argc, argv, {"running", "got"}, [] { return std::make_unique<Machine>(); });
  std::fflush(nullptr);
  std::_Exit(rc);
}
