#include "expr.hpp"

DCGP_S11N_FUNCTION_IMPLEMENT(hx_picky, hx::Picky, double, const std::vector<double> &)
DCGP_S11N_FUNCTION_IMPLEMENT(hx_pickys, hx::PickyS, std::string, const std::vector<std::string> &)
DCGP_S11N_FUNCTION_IMPLEMENT(hx_pc, hx::Pc, std::vector<double>, const std::vector<double> &,
                          std::function<std::vector<double>(const std::vector<double> &)>)

