#include "evo.hpp"
PAGMO_S11N_ALGORITHM_IMPLEMENT(dcgp::es4cgp)
PAGMO_S11N_ALGORITHM_IMPLEMENT(dcgp::mes4cgp)
PAGMO_S11N_ALGORITHM_IMPLEMENT(dcgp::moes4cgp)
PAGMO_S11N_ALGORITHM_IMPLEMENT(dcgp::momes4cgp)
PAGMO_S11N_ALGORITHM_IMPLEMENT(dcgp::gd4cgp)
PAGMO_S11N_BFE_IMPLEMENT(hx::OrderBfe)
PAGMO_S11N_BFE_IMPLEMENT(hx::CrowdBfe)
