#ifndef HARNESS_IO_HPP
#define HARNESS_IO_HPP
#include "common.hpp"
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <boost/serialization/optional.hpp>
#include <boost/serialization/string.hpp>
#include <boost/serialization/vector.hpp>
namespace hc
{
template <typename T>
std::string dump(const T &k, bool text = true)
{
    dsim::Atomic at;
    std::ostringstream os;
    if (text) {
        boost::archive::text_oarchive oa(os);
        oa << k;
    } else {
        boost::archive::binary_oarchive oa(os);
        oa << k;
    }
    return os.str();
}
template <typename T>
void undump(const std::string &s, T &k, bool text = true)
{
    dsim::Atomic at;
    std::istringstream is(s);
    if (text) {
        boost::archive::text_iarchive ia(is);
        ia >> k;
    } else {
        boost::archive::binary_iarchive ia(is);
        ia >> k;
    }
}
} // namespace hc
#endif
