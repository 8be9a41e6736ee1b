// The serialization registrations of the library, linked once per harness.
#include "../sim/dsim.hpp"
#include <dcgp/wrapped_functions.hpp>
#include <dcgp/wrapped_functions_s11n_implement.hpp>
