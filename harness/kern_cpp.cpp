// The data-parallel kernels.
#include "kern.hpp"
#include "cd_apply_1d_cuda.hpp"
#include "cd_apply_2d_cuda.hpp"
#include "cd_apply_3d_cuda.hpp"
#include "cd_correct_bc_1d_cuda.hpp"
#include "cd_correct_bc_2d_cuda.hpp"
#include "cd_correct_bc_3d_cuda.hpp"
#include "cd_flux_1d_cuda.hpp"
#include "cd_flux_2d_cuda.hpp"
#include "cd_flux_3d_cuda.hpp"
#include "cd_stencil_1d_cuda.hpp"
#include "cd_stencil_2d_cuda.hpp"
#include "cd_stencil_3d_cuda.hpp"
#include "coarse_to_fine_cuda.hpp"

#define APPLY(D)                                                                       \
    static KReg apply##D[] = {                                                         \
        {"diffusion_v1_res" #D, wrap<real>(cd_apply_##D##d_cuda<real>::diffusion_v1_res)},     \
        {"diffusion_v2_res" #D, wrap<real>(cd_apply_##D##d_cuda<real>::diffusion_v2_res)},     \
        {"poisson_v1_res" #D, wrap<real>(cd_apply_##D##d_cuda<real>::poisson_v1_res)},         \
        {"diffusion_v1_apply" #D, wrap<real>(cd_apply_##D##d_cuda<real>::diffusion_v1_apply)}, \
        {"diffusion_v2_apply" #D, wrap<real>(cd_apply_##D##d_cuda<real>::diffusion_v2_apply)}, \
        {"poisson_v2_apply" #D, wrap<real>(cd_apply_##D##d_cuda<real>::poisson_v2_apply)},     \
        {"flux" #D, wrap<real>(cdf_##D##d_cuda<real>::flux)},                          \
        {"poisson_flux" #D, wrap<real>(cdf_##D##d_cuda<real>::poisson_flux)},          \
        {"set_bc" #D, wrap<real>(cd_correct_bc_##D##d_cuda<real>::set_bc)},            \
        {"set_poisson_bc" #D, wrap<real>(cd_correct_bc_##D##d_cuda<real>::set_poisson_bc)}};
APPLY(1)
APPLY(2)
APPLY(3)
KERNEL("set_corner_bc2", cd_correct_bc_2d_cuda<real>::set_corner_bc)
KERNEL("set_homogenous_bc2", cd_correct_bc_2d_cuda<real>::set_homogenous_bc)
KERNEL("copy3", coarse_to_fine<real>::copy)
KERNEL("copy_corner3", coarse_to_fine<real>::copy_corner)

#define ST(D, f) {#f #D, wrap<real>(cd_stencil_##D##d_cuda<real>::f)}
#define STENCIL(D)                                                                     \
    static KReg stencil##D[] = {                                                       \
        ST(D, offdiag), ST(D, poisson_offdiag), ST(D, v1diag), ST(D, v2diag),          \
        ST(D, poisson_diag), ST(D, adj_diag), ST(D, adj_poisson_diag),                 \
        ST(D, adj_cf_diag), ST(D, adj_poisson_cf_diag), ST(D, adj_offdiag),            \
        ST(D, adj_poisson_offdiag), ST(D, adj_cf_offdiag), ST(D, readj_offdiag),       \
        ST(D, adj_cf_bdryrhs)};
STENCIL(1)
STENCIL(2)
STENCIL(3)
