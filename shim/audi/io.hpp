#ifndef VSHIM_AUDI_IO_HPP
#define VSHIM_AUDI_IO_HPP
#include <ostream>
#include <string>
#include <utility>
#include <vector>
namespace audi
{
namespace detail_io
{
template <typename T>
inline void one(std::ostream &os, const T &x)
{
    os << x;
}
inline void one(std::ostream &os, bool b)
{
    os << (b ? "true" : "false");
}
template <typename T>
inline void one(std::ostream &os, const std::vector<T> &v)
{
    os << '[';
    for (std::size_t i = 0; i < v.size(); ++i) {
        if (i == 5u && v.size() > 6u) {
            os << ", ... ";
            break;
        }
        if (i) os << ", ";
        one(os, v[i]);
    }
    os << ']';
}
template <typename A, typename B>
inline void one(std::ostream &os, const std::pair<A, B> &p)
{
    os << '(';
    one(os, p.first);
    os << ',';
    one(os, p.second);
    os << ')';
}
} // namespace detail_io
inline void stream(std::ostream &) {}
template <typename T, typename... Args>
inline void stream(std::ostream &os, const T &x, const Args &...args)
{
    detail_io::one(os, x);
    stream(os, args...);
}
} // namespace audi
#endif
