#include "C06.h"
namespace c06 {
const std::vector<TypeRunner> typesA = {runType<int>, runType<double>, runType<bool>, runType<qint64>, runType<Color>, runType<QString>, runType<QByteArray>};
}
