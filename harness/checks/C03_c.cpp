#include "C03.h"
namespace c03 {
void attach_it(World &w, const LinkArgs &l) { attachB<int, Tracked>(w, l); }
}
