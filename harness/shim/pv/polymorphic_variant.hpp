// Stands in for the polymorphic_variant library, which is not available offline.
#pragma once
#include <utility>
#include <variant>
namespace pv {
template <class Base, class... Ts>
class polymorphic_variant {
  std::variant<Ts...> v;
 public:
  template <class T>
    requires(std::is_same_v<std::remove_cvref_t<T>, Ts> || ...)
  polymorphic_variant(T&& t) : v(std::forward<T>(t)) {}
  Base& get() { return std::visit([](auto& x) -> Base& { return x; }, v); }
  const Base& get() const { return std::visit([](const auto& x) -> const Base& { return x; }, v); }
  Base* operator->() { return &get(); }
  const Base* operator->() const { return &get(); }
  operator Base&() { return get(); }
  operator const Base&() const { return get(); }
  Base& operator*() { return get(); }
  const Base& operator*() const { return get(); }
};
}  // namespace pv
