#include "prob.hpp"
DCGP_S11N_FUNCTION_IMPLEMENT(hx_pickysum, hx::PickySum, double, const std::vector<double> &)
DCGP_S11N_FUNCTION_IMPLEMENT(hx_prt, hx::PRef::Prt, std::string, const std::vector<std::string> &)
DCGP_S11N_FUNCTION_IMPLEMENT(hx_pcd, hx::Pct<double>, std::vector<double>, const std::vector<double> &,
                             std::function<std::vector<double>(const std::vector<double> &)>)
DCGP_S11N_FUNCTION_IMPLEMENT(hx_pcv, hx::Pct<audi::gdual_v>, std::vector<audi::gdual_v>,
                             const std::vector<audi::gdual_v> &,
                             std::function<std::vector<audi::gdual_v>(const std::vector<audi::gdual_v> &)>)
PAGMO_S11N_PROBLEM_IMPLEMENT(dcgp::symbolic_regression)
