// In place of SeQuant/domain/mbpt/biorthogonalization.cpp, which needs libperm:
// every entry point throws.
#include <SeQuant/domain/mbpt/biorthogonalization.hpp>
#include <stdexcept>
#define LEFT_OUT { throw std::runtime_error("left out: libperm"); }
namespace sequant::mbpt {
template <typename T>
using groups = container::svector<container::svector<T>>;
void biorthogonal_transform(ResultExpr&, double) LEFT_OUT
void biorthogonal_transform(container::svector<ResultExpr>&, double) LEFT_OUT
ExprPtr biorthogonal_transform(const ExprPtr&, const groups<SlottedIndex>&, double) LEFT_OUT
ExprPtr biorthogonal_transform(const ExprPtr&, const groups<Index>&, double) LEFT_OUT
ExprPtr WK_biorthogonalization_filter(ExprPtr, const groups<SlottedIndex>&) LEFT_OUT
ExprPtr WK_biorthogonalization_filter(ExprPtr, const groups<Index>&) LEFT_OUT
ExprPtr biorthogonal_transform_pre_nnsproject(ExprPtr&, const groups<SlottedIndex>&, bool) LEFT_OUT
ExprPtr biorthogonal_transform_pre_nnsproject(ExprPtr&, const groups<Index>&, bool) LEFT_OUT
}  // namespace sequant::mbpt
