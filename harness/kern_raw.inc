R(applystencilatpoint1d)
R(applystencilonpatch1d)
R(adjcellcrsfinebdryrhs1d)
R(celljacobi1d)
R(cellgs1d)
R(cellrbgs1d)
R(celladjustsystemrhspatch1d)
R(cellblock1x1jacobi1d)
R(cellblock2x2jacobi1d)
R(nodediffusionv1apply1d)
R(nodediffusionv2apply1d)
R(nodepoissonapply1d)
R(nodediffusionflux1d)
R(nodepoissonflux1d)
R(nodediffusionoffdiag1d)
R(nodepoissonoffdiag1d)
R(nodediffusionv1diag1d)
R(nodediffusionv2diag1d)
R(nodepoissondiag1d)
R(adjnodediffusiondiag1d)
R(adjnodepoissondiag1d)
R(adjnodediffusioncfdiag1d)
R(adjnodepoissoncfdiag1d)
R(adjnodediffusionoffdiag1d)
R(adjnodepoissonoffdiag1d)
R(adjnodediffusioncfoffdiag1d)
R(readjnodediffusionoffdiag1d)
R(adjnodediffusioncfbdryrhs1d)
R(applystencilatpoint2d)
R(applystencilonpatch2d)
R(adjcellcrsfinebdryrhs2d)
R(celljacobi2d)
R(cellgs2d)
R(cellrbgs2d)
R(celladjustsystemrhspatch2d)
R(cellblock1x1jacobi2d)
R(cellblock2x2jacobi2d)
R(nodediffusionv1apply2d)
R(nodediffusionv2apply2d)
R(nodepoissonapply2d)
R(nodediffusionflux2d)
R(nodepoissonflux2d)
R(nodediffusionoffdiag2d)
R(nodepoissonoffdiag2d)
R(nodediffusionv1diag2d)
R(nodediffusionv2diag2d)
R(nodepoissondiag2d)
R(adjnodediffusiondiag2d)
R(adjnodepoissondiag2d)
R(adjnodediffusioncfdiag2d)
R(adjnodepoissoncfdiag2d)
R(adjnodediffusionoffdiag2d)
R(adjnodepoissonoffdiag2d)
R(adjnodediffusioncfoffdiag2d)
R(readjnodediffusionoffdiag2d)
R(adjnodediffusioncfbdryrhs2d)
R(applystencilatpoint3d)
R(applystencilonpatch3d)
R(adjcellcrsfinebdryrhs3d)
R(celljacobi3d)
R(cellgs3d)
R(cellrbgs3d)
R(nodediffusionv1apply3d)
R(nodediffusionv2apply3d)
R(nodepoissonapply3d)
R(nodediffusionflux3d)
R(nodepoissonflux3d)
R(nodediffusionoffdiag3d)
R(nodepoissonoffdiag3d)
R(nodediffusionv1diag3d)
R(nodediffusionv2diag3d)
R(nodepoissondiag3d)
R(adjnodediffusiondiag3d)
R(adjnodepoissondiag3d)
R(adjnodediffusioncfdiag3d)
R(adjnodepoissoncfdiag3d)
R(adjnodediffusionoffdiag3d)
R(adjnodepoissonoffdiag3d)
R(adjnodediffusioncfoffdiag3d)
R(readjnodediffusionoffdiag3d)
R(adjnodediffusioncfbdryrhs3d)
R(cells5rbgs2d)
R(cells9rbgs2d)
R(cells7rbgs3d)
R(ccellblkjacobi3d)
R(cellblockjacobi3d)
R(linearextrap)
