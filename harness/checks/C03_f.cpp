#include "C03.h"
namespace c03 {
void attach_tv(World &w, const LinkArgs &l) { attachB<Tracked, void>(w, l); }
}
