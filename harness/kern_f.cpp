// The reference kernels under the names of the ports.
#include "kern.hpp"
#include "prototypes1d.h"
#include "prototypes2d.h"
#include "prototypes3d.h"

#define REF(D)                                                                         \
    static KReg ref##D[] = {                                                           \
        {"diffusion_v1_res" #D, wrap<real>(celldiffusionv1res##D##d_)},                \
        {"diffusion_v2_res" #D, wrap<real>(celldiffusionv2res##D##d_)},                \
        {"poisson_v1_res" #D, wrap<real>(cellpoissonv1res##D##d_)},                    \
        {"diffusion_v1_apply" #D, wrap<real>(celldiffusionv1apply##D##d_)},            \
        {"diffusion_v2_apply" #D, wrap<real>(celldiffusionv2apply##D##d_)},            \
        {"poisson_v2_apply" #D, wrap<real>(cellpoissonv2apply##D##d_)},                \
        {"flux" #D, wrap<real>(celldiffusionflux##D##d_)},                             \
        {"poisson_flux" #D, wrap<real>(cellpoissonflux##D##d_)},                       \
        {"set_bc" #D, wrap<real>(cellsetcorrectionbc##D##d_)},                         \
        {"set_poisson_bc" #D, wrap<real>(cellsetpoissoncorrectionbc##D##d_)},          \
        {"offdiag" #D, wrap<real>(celldiffusionoffdiag##D##d_)},                       \
        {"poisson_offdiag" #D, wrap<real>(cellpoissonoffdiag##D##d_)},                 \
        {"v1diag" #D, wrap<real>(celldiffusionv1diag##D##d_)},                         \
        {"v2diag" #D, wrap<real>(celldiffusionv2diag##D##d_)},                         \
        {"poisson_diag" #D, wrap<real>(cellpoissondiag##D##d_)},                       \
        {"adj_diag" #D, wrap<real>(adjcelldiffusiondiag##D##d_)},                      \
        {"adj_poisson_diag" #D, wrap<real>(adjcellpoissondiag##D##d_)},                \
        {"adj_cf_diag" #D, wrap<real>(adjcelldiffusioncfdiag##D##d_)},                 \
        {"adj_poisson_cf_diag" #D, wrap<real>(adjcellpoissoncfdiag##D##d_)},           \
        {"adj_offdiag" #D, wrap<real>(adjcelldiffusionoffdiag##D##d_)},                \
        {"adj_poisson_offdiag" #D, wrap<real>(adjcellpoissonoffdiag##D##d_)},          \
        {"adj_cf_offdiag" #D, wrap<real>(adjcelldiffusioncfoffdiag##D##d_)},           \
        {"readj_offdiag" #D, wrap<real>(readjcelldiffusionoffdiag##D##d_)},            \
        {"adj_cf_bdryrhs" #D, wrap<real>(adjcelldiffusioncfbdryrhs##D##d_)}};
REF(1)
REF(2)
REF(3)
KERNEL("set_corner_bc2", cellsetinteriorcornerbc2d_)
KERNEL("set_homogenous_bc2", cellsethomogenousbc2d_)
KERNEL("copy3", copycoarsetofine3d_)
KERNEL("copy_corner3", copycoarsetofinecorner3d_)
