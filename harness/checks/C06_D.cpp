#include "C06.h"
namespace c06 {
const std::vector<TypeRunner> typesD = {runType<Fn>, runType<Ptr>, runType<QUrl>, runType<FromString>, runType<FromTracked>, runType<AnyT>};
}
