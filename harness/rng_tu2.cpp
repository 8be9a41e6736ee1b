// A second translation unit using the library's random device: the documented sequence is global to
// the program, not to a translation unit.
#include <dcgp/rng.hpp>
unsigned tu2_next() { return dcgp::random_device::next(); }
void tu2_set_seed(unsigned s) { dcgp::random_device::set_seed(s); }
