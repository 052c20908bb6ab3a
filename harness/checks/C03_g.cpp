#include "C03.h"
namespace c03 {
void attach_tt(World &w, const LinkArgs &l) { attachB<Tracked, Tracked>(w, l); }
}
