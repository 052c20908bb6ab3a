#include "C03.h"
namespace c03 {
void attach_vi(World &w, const LinkArgs &l) { attachB<void, int>(w, l); }
void attach_vv(World &w, const LinkArgs &l) { attachB<void, void>(w, l); }
void attach_vt(World &w, const LinkArgs &l) { attachB<void, Tracked>(w, l); }
}
