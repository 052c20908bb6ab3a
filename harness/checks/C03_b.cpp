#include "C03.h"
namespace c03 {
void attach_iv(World &w, const LinkArgs &l) { attachB<int, void>(w, l); }
}
