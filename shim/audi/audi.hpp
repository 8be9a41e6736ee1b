#ifndef VSHIM_AUDI_HPP
#define VSHIM_AUDI_HPP
#include <audi/functions.hpp>
#include <audi/gdual.hpp>
#include <audi/io.hpp>
#include <audi/vectorized.hpp>
#include <boost/serialization/string.hpp>
#include <boost/serialization/utility.hpp>
#include <boost/serialization/vector.hpp>
#include <cassert>
#include <map>
#include <numeric>
#endif
