#include "C03.h"
namespace c03 {
void attach_ti(World &w, const LinkArgs &l) { attachB<Tracked, int>(w, l); }
}
