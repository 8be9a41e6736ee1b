// Stand-in for SymEngine::Expression (SymEngine is not installed): keeps the text, simplifies nothing.
#ifndef VSHIM_SYMENGINE_EXPRESSION_H
#define VSHIM_SYMENGINE_EXPRESSION_H
#include <ostream>
#include <string>
namespace SymEngine
{
class Expression
{
public:
    Expression() = default;
    Expression(const std::string &s) : m_s(s) {}
    friend std::ostream &operator<<(std::ostream &os, const Expression &e) { return os << e.m_s; }

private:
    std::string m_s;
};
} // namespace SymEngine
#endif
