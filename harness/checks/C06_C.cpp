#include "C06.h"
namespace c06 {
const std::vector<TypeRunner> typesC = {runType<NoDefaultNoAssign>, runType<std::unique_ptr<int>>, runType<std::shared_ptr<Base>>, runType<std::optional<Tracked>>, runType<Var>, runType<QVariant>, runType<Pair>};
}
