// Reads a printed formula and computes its value, with the usual precedences (** binds tighter than a sign).
#ifndef HARNESS_FORMULA_HPP
#define HARNESS_FORMULA_HPP
#include "common.hpp"
#include <cmath>
#include <map>
#include <stdexcept>
namespace hc
{
struct bad_formula : std::runtime_error {
    using std::runtime_error::runtime_error;
};
class Formula
{
    const std::string &s;
    const std::map<std::string, double> &env;
    std::size_t i = 0;
    bool eat(char c)
    {
        while (i < s.size() && s[i] == ' ') ++i;
        if (i < s.size() && s[i] == c) {
            ++i;
            return true;
        }
        return false;
    }
    void need(char c)
    {
        if (!eat(c)) throw bad_formula(std::string("expected ") + c + " at " + std::to_string(i) + " in " + s.substr(0, 200));
    }
    double note(double v)
    {
        if (!std::isfinite(v)) finite = false;
        mag = std::max(mag, std::fabs(v));
        return v;
    }
    double expr()
    {
        double v = term();
        for (;;) {
            if (eat('+')) v = note(v + term());
            else if (eat('-')) v = note(v - term());
            else return v;
        }
    }
    double term()
    {
        double v = sign();
        for (;;) {
            if (i < s.size() && s[i] == '*' && (i + 1 >= s.size() || s[i + 1] != '*')) {
                ++i;
                v = note(v * sign());
            } else if (eat('/')) v = note(v / sign());
            else return v;
        }
    }
    double sign()
    {
        if (eat('-')) return -sign();
        if (eat('+')) return sign();
        return power();
    }
    double power()
    {
        const double b = atom();
        if (i + 1 < s.size() && s[i] == '*' && s[i + 1] == '*') {
            i += 2;
            return note(std::pow(b, sign()));
        }
        return b;
    }
    double atom()
    {
        if (eat('(')) {
            const double v = expr();
            need(')');
            return v;
        }
        std::string w;
        while (i < s.size() && (std::isalnum(static_cast<unsigned char>(s[i])) || s[i] == '_' || s[i] == '.')) w += s[i++];
        if (w.empty()) throw bad_formula("unexpected end or sign at " + std::to_string(i) + " in " + s.substr(0, 200));
        if (eat('(')) {
            const double a = expr();
            need(')');
            return note(call(w, a));
        }
        if (std::isdigit(static_cast<unsigned char>(w[0])) || w[0] == '.') return std::stod(w);
        const auto it = env.find(w);
        if (it == env.end()) throw bad_formula("unknown symbol " + w);
        return it->second;
    }
    static double call(const std::string &f, double a)
    {
        if (f == "sin") return std::sin(a);
        if (f == "cos") return std::cos(a);
        if (f == "exp") return std::exp(a);
        if (f == "log") return std::log(a);
        if (f == "sqrt") return std::sqrt(a);
        if (f == "abs") return std::fabs(a);
        if (f == "tanh") return std::tanh(a);
        if (f == "sig") return 1. / (1. + std::exp(-a));
        if (f == "ReLu") return a < 0 ? 0. : a;
        if (f == "ELU") return a < 0 ? std::exp(a) - 1. : a;
        if (f == "ISRU") return a / std::sqrt(1. + a * a);
        if (f == "step") return a < 0 ? 0. : 1.;
        if (f == "picky") return a * 0.5 + 1.;
        throw bad_formula("unknown function " + f);
    }

public:
    bool finite = true; // no intermediate value was infinite or undefined
    double mag = 0;
    Formula(const std::string &str, const std::map<std::string, double> &e) : s(str), env(e) {}
    double value()
    {
        const double v = expr();
        if (i != s.size()) throw bad_formula("trailing " + s.substr(i, 50) + " in " + s.substr(0, 200));
        return v;
    }
};
} // namespace hc
#endif
