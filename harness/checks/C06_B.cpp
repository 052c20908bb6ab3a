#include "C06.h"
namespace c06 {
const std::vector<TypeRunner> typesB = {runType<std::string>, runType<std::vector<Tracked>>, runType<QList<int>>, runType<Map>, runType<Tracked>, runType<MoveOnly>, runType<CopyOnly>};
}
