// Replays behaviours of spec/BinaryTree.tla into core/binary_node.
#include "replay.hpp"
#include <SeQuant/core/binary_node.hpp>
using namespace vf;

struct Data {  // notices being moved from
  string s;
  Data() = default;
  explicit Data(int v) : s("value " + std::to_string(v)) {}
  int v() const { return s.size() > 6 ? std::stoi(s.substr(6)) : -1; }
  bool operator==(const Data&) const = default;
};
using Tree = FullBinaryNode<Data>;

struct Machine {
  vector<std::unique_ptr<Tree>> pool;
  Machine() { for (int k = 0; k < 3; ++k) pool.push_back(std::make_unique<Tree>(Data(0))); }
  static Tree& at(Tree& t, const json& p) {
    Tree* n = &t;
    for (auto& d : p) n = int(d) == 1 ? &n->left() : &n->right();
    return *n;
  }
  static json show(const Tree& t, const Tree* parent, string& err) {
    if (t.root() != (parent == nullptr)) err = "root()";
    else if (parent && &t.parent() != parent) err = "parent()";
    else if (!parent) try { (void)t.parent(); err = "parent() of a root"; } catch (const std::exception&) {}
    if (t->v() != (*t).v()) err = "data";
    if (t.leaf()) {
      for (int s = 0; s < 2; ++s) try { (void)(s ? t.left() : t.right()); err = "child of a leaf"; } catch (const std::exception&) {}
      return {{"v", t->v()}, {"k", json::array()}};
    }
    return {{"v", t->v()}, {"k", {show(t.left(), &t, err), show(t.right(), &t, err)}}};
  }
  // the tree drawn by digraph()
  static json drawn(const string& g) {
    std::map<int, int> label;
    std::map<int, vector<int>> kids;
    std::istringstream in(g);
    string l;
    while (std::getline(in, l)) {
      int a, b;
      if (sscanf(l.c_str(), "node%d[label=%d];", &a, &b) == 2) label[a] = b;
      else if (sscanf(l.c_str(), "node%d -> node%d;", &a, &b) == 2) kids[a].push_back(b);
    }
    std::function<json(int)> rec = [&](int n) {
      json k = json::array();
      for (int c : kids[n]) k.push_back(rec(c));
      return json{{"v", label.count(n) ? label[n] : -1}, {"k", k}};
    };
    return rec(0);
  }
  json log = json::array();
  static TreeTraversal order(int o) { return TreeTraversal(o); }
  void visit(const json& o) {
    auto& rule = o["rule"];
    string how = o["how"], mode = o["mode"], act = rule["do"];
    Tree& n = at(*pool[int(o["k"]) - 1], o["p"]);
    int m = rule["m"], r = rule["r"], c = rule["c"];
    auto hit = [&](int v, TreeTraversal ctx) { return m > 0 && v % m == r && (ctx == TreeTraversal::Any || int(ctx) == c); };
    auto change = [&](Tree& t) {
      if (act == "collapse") { Data d = *t; t = Tree(d); }
      else if (act == "grow") { Data d = *t; t = Tree(d, Data(90), Data(91)); }
      else if (act == "renew") *t = Data(92);
    };
    auto go = [&](auto& tree, auto f) {
      if (mode == "all") tree.visit(f, order(o["order"]));
      else if (mode == "leaf") tree.visit_leaf(f, order(o["order"]));
      else tree.visit_internal(f, order(o["order"]));
    };
    auto note = [&](const Tree& t, TreeTraversal ctx) { log.push_back(json::array({t->v(), int(ctx)})); };
    if (how == "const") {
      const Tree& t = n;
      go(t, [&](const Tree& t, TreeTraversal ctx) { note(t, ctx); return !hit(t->v(), ctx); });
    } else if (how == "boolcontext" || act == "stop") {
      go(n, [&](Tree& t, TreeTraversal ctx) -> bool {
        note(t, ctx);
        bool h = hit(t->v(), ctx);
        if (h) change(t);
        return !(h && act == "stop");
      });
    } else if (how == "context") {
      go(n, [&](Tree& t, TreeTraversal ctx) { note(t, ctx); if (hit(t->v(), ctx)) change(t); });
    } else {  // int for bool
      go(n, [&](Tree& t, TreeTraversal ctx) -> int { note(t, ctx); if (hit(t->v(), ctx)) change(t); return 2; });
    }
    // a visitor that does not ask for the moment sees the same nodes
    if (act == "renew" || m == 0) {
      json plain = json::array(), want = json::array();
      const Tree& t = n;
      go(t, [&](const Tree& t) { plain.push_back(t->v()); });
      vector<int> seen;
      go(t, [&](const Tree& t, TreeTraversal) { want.push_back(t->v()); });
      if (plain != want) log.push_back("a visitor without moment saw " + plain.dump());
    }
  }
  void apply(const json& o) {
    string op = o["op"];
    auto& K = pool[int(o["k"]) - 1];
    auto J = [&]() -> Tree& { return *pool[int(o["j"]) - 1]; };
    auto M = [&]() -> Tree& { return *pool[int(o["m"]) - 1]; };
    if (op == "build") {
      Tree &l = at(J(), o["p"]), &r = at(M(), o["q"]);
      int v = o["v"];
      if (v % 3 == 0) K = std::make_unique<Tree>(Data(v), l, r);
      else if (v % 3 == 1 && l.leaf() && r.leaf()) K = std::make_unique<Tree>(Data(v), *l, *r);
      else K = std::make_unique<Tree>(Data(v), std::make_unique<Tree>(l), std::make_unique<Tree>(r));
    } else if (op == "graft") at(*K, o["p"]) = at(J(), o["q"]);
    else if (op == "move") { at(*K, o["p"]) = std::move(J()); pool[int(o["j"]) - 1] = std::make_unique<Tree>(Data(0)); }
    else if (op == "movenew") { K = std::make_unique<Tree>(std::move(J())); pool[int(o["j"]) - 1] = std::make_unique<Tree>(Data(0)); }
    else if (op == "lift") { Tree& t = at(*K, o["p"]); t = std::move(at(t, o["q"])); }
    else if (op == "data") *at(*K, o["p"]) = Data(int(o["v"]));
    else if (op == "map") {
      int f = o["f"];
      K = std::make_unique<Tree>(transform_node(at(J(), o["p"]), [&](const Data& d) { return Data(f == 1 ? d.v() + 1 : (2 * d.v() + 1) % 97); }));
    } else if (op == "fold") {
      vector<int> s = o["s"];
      struct F {
        Data operator()(const int& v) const { return Data(v); }
        Data operator()(const Data& a, const Data& b) const { return Data((3 * a.v() + b.v() + 1) % 101); }
      };
      K = std::make_unique<Tree>(s, F{});
    } else if (op == "foldnodes") {
      vector<Tree> s;
      for (int n : o["s"]) s.push_back(*pool[n - 1]);
      if (s.size() % 2) K = std::make_unique<Tree>(fold_left_to_node(s, [](const Tree& a, const Tree& b) { return Data((3 * a->v() + b->v() + 1) % 101); }));
      else K = std::make_unique<Tree>(fold_left_to_node(s, [](const Data& a, const Data& b) { return Data((3 * a.v() + b.v() + 1) % 101); }));
    } else if (op == "visit") visit(o);
    else fprintf(stderr, "unknown operation %s\n", op.c_str()), std::exit(3);
  }
  json step(const json& o) {
    log = json::array();
    apply(o);
    json r{{"log", log}};
    for (auto& t : pool) {
      string err;
      auto s = show(*t, nullptr, err);
      auto g = drawn(t->digraph([](const Tree& n) { return std::to_string(n->v()); }));
      if (g != s) err = "digraph: " + g.dump();
      r["tree"].push_back(err.empty() ? s : json(err));
      r["size"].push_back(t->size());
      json l = json::array();
      t->visit_leaf([&](const Tree& n) { l.push_back(n->v()); });
      r["leaves"].push_back(l);
      json e = json::array();
      for (auto& u : pool) e.push_back(*t == *u);
      r["eq"].push_back(e);
    }
    return r;
  }
};
int main(int argc, char** argv) {
  return replay_main(argc, argv, {}, [] { return std::make_unique<Machine>(); });
}
