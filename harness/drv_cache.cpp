// Replays histories of CacheHistory.tla into CacheManager.
#include "replay.hpp"
#include "nets.hpp"
#include <SeQuant/core/binary_node.hpp>
#include <SeQuant/core/eval/cache_manager.hpp>
#include <SeQuant/core/eval/eval_expr.hpp>
#include <SeQuant/core/eval/eval_node.hpp>
using namespace vf;
using Node = EvalNode<EvalExpr>;
struct Token final : Result {
  int n;
  size_t bytes;
  Token(int n, size_t b) : Result(int(n)), n(n), bytes(b) {}
  [[noreturn]] static void no() { throw std::logic_error("not an operation of a cache"); }
  ResultPtr sum(Result const&, std::array<std::any, 3> const&) const override { no(); }
  ResultPtr prod(Result const&, std::array<std::any, 3> const&, DeNest) const override { no(); }
  ResultPtr permute(std::array<std::any, 2> const&) const override { no(); }
  void add_inplace(Result const&) override { no(); }
  ResultPtr symmetrize() const override { no(); }
  ResultPtr antisymmetrize(size_t) const override { no(); }
  ResultPtr mult_by_phase(std::int8_t) const override { no(); }
  size_t size_in_bytes() const override { return bytes; }
  id_t type_id() const noexcept override { return id_for_type<Token>(); }
};
template <bool collide>
struct Machine {
  using Cache = CacheManager<Node, collide>;
  std::vector<Node> keys, others;  // others: the same intermediates with other indices
  std::unique_ptr<Cache> cache;
  std::map<int, std::weak_ptr<Result>> made;
  int turn = 0;
  Machine() {
    auto node = [](const wchar_t* l, int o) {
      auto n = [&](int k) { return std::to_wstring(k + o); };
      auto e = ex<Tensor>(l, bra{Index(L"i_" + n(1))}, ket{Index(L"a_" + n(2))}, aux{}, Symmetry::Nonsymm, BraKetSymmetry::Nonsymm, ColumnSymmetry::Symm) *
               ex<Tensor>(L"t", bra{Index(L"a_" + n(2))}, ket{Index(L"i_" + n(3))}, aux{}, Symmetry::Nonsymm, BraKetSymmetry::Nonsymm, ColumnSymmetry::Symm);
      SEQUANT_PRAGMA_IGNORE_DEPRECATED_BEGIN
      return binarize(e);
      SEQUANT_PRAGMA_IGNORE_DEPRECATED_END
    };
    static const wchar_t* names[] = {L"f", L"g", L"h", L"u", L"w"};
    for (auto l : names) { keys.push_back(node(l, 0)); others.push_back(node(l, 7)); }
  }
  json step(const json& op) {
    string o = op["op"];
    int res = 0;
    ++turn;
    auto key = [&](size_t k) -> const Node& { return (turn % 2 ? keys : others)[k - 1]; };
    size_t n = op["see"]["life"].size();
    if (o == "new") {
      std::vector<std::pair<Node, size_t>> reg;
      std::vector<bool> per;
      for (size_t k = 0; k < op["e"].size(); ++k) { reg.emplace_back(keys[k], op["e"][k]["max"].get<size_t>()); per.push_back(op["e"][k]["per"]); }
      cache = std::make_unique<Cache>(reg, [&](const Node& q) {
        TreeNodeEqualityComparator<Node> eq;
        for (size_t k = 0; k < per.size(); ++k) if (eq(q, keys[k])) return bool(per[k]);
        return false;
      });
    } else if (o == "store") {
      int v = op["v"];
      auto p = std::make_shared<Token>(v, op["size"].get<size_t>());
      made[v] = p;
      auto back = cache->store(key(op["k"]), std::move(p));
      res = back ? static_cast<Token&>(*back).n : 0;
    } else if (o == "access") {
      auto back = cache->access(key(op["k"]));
      res = back ? static_cast<Token&>(*back).n : 0;
    } else if (o == "reset") cache->reset();
    else if (o == "note") res = int(cache->note_working_set(op["v"].get<size_t>()));
    else throw std::logic_error("unknown operation");
    json s{{"res", res}, {"mark", cache->working_set_hwmark()}, {"total", cache->size_in_bytes()}, {"count", cache->alive_count()}};
    for (size_t k = 1; k <= n; ++k) {
      auto& q = key(k);
      s["life"].push_back(cache->life(q)); s["max"].push_back(cache->max_life(q)); s["per"].push_back(cache->persistent(q));
      s["known"].push_back(cache->exists(q)); s["alive"].push_back(cache->alive(q)); s["size"].push_back(cache->entry_size_in_bytes(q));
    }
    s["held"] = json::array();
    for (auto& [v, w] : made) if (!w.expired()) s["held"].push_back(v);
    return s;
  }
};
struct Either {
  std::unique_ptr<Machine<false>> a;
  std::unique_ptr<Machine<true>> b;
  json step(const json& op) { return a ? a->step(op) : b->step(op); }
};
int main(int argc, char** argv) {
  TensorCanonicalizer::register_instance(std::make_shared<DefaultTensorCanonicalizer>());
  set_default_context({.index_space_registry_shared_ptr = net_registry(), .vacuum = Vacuum::SingleProduct, .spbasis = SPBasis::Spinor, .first_dummy_index_ordinal = 100000});
  int n = 0;
  return replay_main(argc, argv, {"held"}, [&] {
    auto m = std::make_unique<Either>();
    if (n++ % 2) m->b = std::make_unique<Machine<true>>(); else m->a = std::make_unique<Machine<false>>();
    return m;
  });
}
