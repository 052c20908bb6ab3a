#include "C03.h"
namespace c03 {
void attach_ii(World &w, const LinkArgs &l) { attachB<int, int>(w, l); }
}
