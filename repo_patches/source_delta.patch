From d93cfd87d63797e55c9a99fd973975ce958dc55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:50 +0000
Subject: [PATCH 01/20] fix: right and top border indices of the assembled
 matrix on periodic grids

---
 cafes/fem/bc.hpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/cafes/fem/bc.hpp b/cafes/fem/bc.hpp
index a946d5d..78c9ee8 100644
--- a/cafes/fem/bc.hpp
+++ b/cafes/fem/bc.hpp
@@ -185,7 +185,7 @@ namespace cafes
       PetscErrorCode ierr;
       PetscFunctionBeginUser;
 
-      PetscInt       i, j, d, ind, nx, ny, size;
+      PetscInt       i, j, d, ind, nx, ny;
       PetscInt       local_id, nbcs;
       PetscInt       *bc_id1, *bc_id2;
       DMDALocalInfo  info;
@@ -203,9 +203,10 @@ namespace cafes
       ierr = PetscMalloc(sizeof(PetscInt)*2*info.gym, &bc_id1);CHKERRQ(ierr);
       ierr = PetscMalloc(sizeof(PetscInt)*2*info.gxm, &bc_id2);CHKERRQ(ierr);
 
-      MPI_Comm_size(PETSC_COMM_WORLD, &size);
-      nx = (size == 1)? info.mx: info.gxm;
-      ny = (size == 1)? info.my: info.gym;
+      // local numbering includes the ghost points (also on one process when a
+      // direction is periodic)
+      nx = info.gxm;
+      ny = info.gym;
 
       //left border
       nbcs = 0;
@@ -227,7 +228,7 @@ namespace cafes
 
       // right border
       nbcs = 0;
-      i = (size == 1) ? info.mx-1: info.gxm-1;
+      i = info.gxm-1;
       ind = 0;
       for(j=0; j<ny; j++){
         local_id = info.dof*(i + j*nx);
@@ -243,8 +244,6 @@ namespace cafes
 
       ierr = MatZeroRowsLocal(A, nbcs, bc_id1, 1.0, NULL, NULL);CHKERRQ(ierr);
 
-      nx = (size == 1) ? info.mx: info.gxm;
-
       // bottom border
       nbcs = 0;
       j = 0;
@@ -265,7 +264,7 @@ namespace cafes
 
       // top border
       nbcs = 0;
-      j = (size == 1) ? info.my-1:  info.gym-1;
+      j = info.gym-1;
       ind = 0;
       for(i=0; i<nx; i++){
         local_id = info.dof*(i + j*nx);
-- 
2.43.0


From c101a8f80d5c8875b67278a341522533216298a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:35 +0000
Subject: [PATCH 02/20] fix: find the multigrid level of non-square and
 periodic grids

---
 cafes/problem/stokes.hpp | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/cafes/problem/stokes.hpp b/cafes/problem/stokes.hpp
index 5e2ac76..4c5d312 100644
--- a/cafes/problem/stokes.hpp
+++ b/cafes/problem/stokes.hpp
@@ -60,18 +60,11 @@ namespace cafes
             ierr = KSPGetDM(ksp, &dm);CHKERRQ(ierr);
 
             int localsize, totalsize;
-            int localsize_0, totalsize_0;
             ierr = fem::get_DM_sizes(dm, localsize, totalsize);CHKERRQ(ierr);
-            ierr = fem::get_DM_sizes(ctx_->dm, localsize_0, totalsize_0);CHKERRQ(ierr);
 
-            int nx_0 = sqrt(totalsize_0/2), nx = sqrt(totalsize/2);
-            int level = 0;
-            // find the level in MG
-            while(nx_0 != nx)
-            {
-                level++;
-                nx_0 = (nx_0+1)/Dim;
-            }
+            // each coarsening doubles the space step in every direction
+            PetscInt level;
+            ierr = DMGetCoarsenLevel(dm, &level);CHKERRQ(ierr);
 
             auto mg_h = ctx_->h;
             std::for_each(mg_h.begin(), mg_h.end(), [&](auto &x) {x *= (1 << level);});
-- 
2.43.0


From d69abb4394ac53d3a81612b96c7c4b5b8845d440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:10 +0000
Subject: [PATCH 03/20] fix: refined interpolation with unequal factors, the
 pressure and several processes

---
 cafes/posttraitement/interpolation.hpp | 58 +++++++++++++-------------
 1 file changed, 28 insertions(+), 30 deletions(-)

diff --git a/cafes/posttraitement/interpolation.hpp b/cafes/posttraitement/interpolation.hpp
index ae8eb18..89f9959 100644
--- a/cafes/posttraitement/interpolation.hpp
+++ b/cafes/posttraitement/interpolation.hpp
@@ -78,12 +78,10 @@ namespace cafes
       PetscInt localsize;
 
     	DMCompositeGetEntries(dm, &dav, &dap);
-      DMClone(dav, &dav_refine);
-      DMClone(dap, &dap_refine);
     	ierr = DMDASetRefinementFactor(dav, refine[0], refine[1], PETSC_NULL);CHKERRQ(ierr);
-      ierr = DMRefine(dav, PETSC_COMM_WORLD, &dav_refine);
+      ierr = DMRefine(dav, PETSC_COMM_WORLD, &dav_refine);CHKERRQ(ierr);
       ierr = DMDASetRefinementFactor(dap, refine[0], refine[1], PETSC_NULL);CHKERRQ(ierr);
-      ierr = DMRefine(dap, PETSC_COMM_WORLD, &dap_refine);
+      ierr = DMRefine(dap, PETSC_COMM_WORLD, &dap_refine);CHKERRQ(ierr);
       DMCompositeCreate(PETSC_COMM_WORLD, &dm_refine);
       DMCompositeAddDM(dm_refine, dav_refine);
       DMCompositeAddDM(dm_refine, dap_refine);
@@ -98,31 +96,35 @@ namespace cafes
       ierr = solp.global_to_local(INSERT_VALUES);CHKERRQ(ierr);
 
       // INTERPOLATION KERNEL
-      auto const kernel = [](const auto& solv, auto& solv_ref, const auto& refine, const auto& h)
+      // Each process computes the refined points it owns from the coarse element
+      // which contains them.
+      auto const kernel = [](const auto& sol, auto& sol_ref, const auto& refine, const auto& h)
       {
         auto const kernel_pos = [&](auto const &pos)
         {
-          auto ielem = fem::get_element(pos);
-          for(std::size_t j=0; j<refine[0]+1; j++)
+          geometry::position<int, Dimensions> coarse;
+          geometry::position<double, Dimensions> x;
+          for (std::size_t d=0; d<Dimensions; d++)
           {
-            for(std::size_t i =0; i<refine[1]+1; i++)
+            coarse[d] = pos[d]/refine[d];
+            x[d] = (pos[d]%refine[d])*h[d]/refine[d];
+          }
+          auto ielem = fem::get_element(coarse);
+          auto bfunc = fem::P1_integration(x, h);
+          auto uref = sol_ref.at_g(pos);
+          for (int d=0; d<sol_ref.dof_; d++)
+          {
+            uref[d] = 0;
+          }
+          for (std::size_t k=0; k<bfunc.size(); k++)
+          {
+            // a point on the side of the element must not read the other side
+            // (it may be out of the mesh)
+            if (bfunc[k] == 0.) continue;
+            auto u = sol.at(ielem[k]);
+            for (int d=0; d<sol_ref.dof_; d++)
             {
-              auto refcoord = pos*h + geometry::position<double, Dimensions>{i*h[0]/refine[0], j*h[1]/refine[1]};
-              auto bfunc = fem::P1_integration(geometry::position<double,Dimensions>{refcoord[0] - h[0]*pos[0], refcoord[1] - h[1]*pos[1]}, h);
-              auto refpos = geometry::position<int, Dimensions>{i+pos[0]*refine[0],j+pos[1]*refine[1]};
-              auto uref = solv_ref.at(refpos);
-              for (std::size_t d=0; d<Dimensions; d++)
-              {
-                uref[d] = 0;
-              }
-              for (std::size_t k=0; k<bfunc.size(); k++)
-              {
-                auto u = solv.at(ielem[k]);
-                for (std::size_t d=0; d<Dimensions; d++)
-                {
-                  uref[d] += u[d]*bfunc[k];
-                }
-              }
+              uref[d] += u[d]*bfunc[k];
             }
           }
         };
@@ -130,17 +132,13 @@ namespace cafes
       };
 
       // VELOCITY INTERPOLATION
-      auto box = fem::get_DM_bounds<Dimensions>(dav);
+      auto box = fem::get_DM_bounds<Dimensions>(dav_refine, false);
       algorithm::iterate(box, kernel(solv, solv_ref, refine, h));
 
       // PRESSURE INTERPOLATION
-      auto boxp = fem::get_DM_bounds<Dimensions>(dap);
+      auto boxp = fem::get_DM_bounds<Dimensions>(dap_refine, false);
       algorithm::iterate(boxp, kernel(solp, solp_ref, refine, h));
 
-      // LOCAL TO GLOBAL
-      ierr = solv_ref.local_to_global(INSERT_VALUES);CHKERRQ(ierr);
-      ierr = solp_ref.local_to_global(INSERT_VALUES);CHKERRQ(ierr);
-
       PetscFunctionReturn(0);
     }
 
-- 
2.43.0


From 720593fd0bc60ced64d1eb1268a3d24f903713e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:10 +0000
Subject: [PATCH 04/20] fix: start the last problem of SEM::solve from an empty
 right-hand side

---
 cafes/problem/sem.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cafes/problem/sem.hpp b/cafes/problem/sem.hpp
index 28cd267..afb7e4c 100644
--- a/cafes/problem/sem.hpp
+++ b/cafes/problem/sem.hpp
@@ -199,6 +199,7 @@ namespace cafes
 
         // solve the problem with the right control
         ctx->compute_rhs = true;
+        ierr = VecSet(ctx->problem.rhs, 0.);CHKERRQ(ierr);
         ierr = init_problem<Dimensions, Ctx>(*ctx, sol, true);CHKERRQ(ierr);
         ierr = ctx->problem.solve();CHKERRQ(ierr);
 
-- 
2.43.0


From 25398b9702f05e14c306718e4fb4fb72ae6e8120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:59 +0000
Subject: [PATCH 05/20] fix: subtract the rigid motion of the particles from
 the velocity at their surface

---
 cafes/particle/geometry/vector.hpp  | 4 ++--
 cafes/problem/particle_operator.hpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/cafes/particle/geometry/vector.hpp b/cafes/particle/geometry/vector.hpp
index 34c3d4b..c1c86a8 100644
--- a/cafes/particle/geometry/vector.hpp
+++ b/cafes/particle/geometry/vector.hpp
@@ -176,8 +176,8 @@ namespace cafes
                                    , vector<T, Dimensions> const& p
                                   )
     {
-        vector<T, Dimensions> that{p};
-        return that -= v;
+        vector<T, Dimensions> that{v};
+        return that -= p;
     }
 
     template<typename T, std::size_t Dimensions>
diff --git a/cafes/problem/particle_operator.hpp b/cafes/problem/particle_operator.hpp
index a43f14a..785d2ec 100644
--- a/cafes/problem/particle_operator.hpp
+++ b/cafes/problem/particle_operator.hpp
@@ -143,7 +143,7 @@ namespace cafes
       for(auto& rpts: r)
       {
         for(std::size_t i=0; i<rpts.size(); ++i){
-          g[ipart][i] -= particles[ipart].velocity_ - geometry::cross_product(particles[ipart].angular_velocity_, r[ipart][i]);
+          g[ipart][i] -= particles[ipart].velocity_ - geometry::cross_product(r[ipart][i], particles[ipart].angular_velocity_);
         }
         ipart++;
       }
-- 
2.43.0


From fe1356a0f90432347a59b42dd2fdbbad592eef5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:15 +0000
Subject: [PATCH 06/20] fix: weight the control by the number of its points in
 forces and torques

---
 cafes/particle/forces_torques.hpp | 14 +++++++++++---
 cafes/problem/ntod.hpp            |  1 -
 cafes/problem/sem.hpp             |  1 -
 3 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/cafes/particle/forces_torques.hpp b/cafes/particle/forces_torques.hpp
index 7d80856..dc3e69e 100644
--- a/cafes/particle/forces_torques.hpp
+++ b/cafes/particle/forces_torques.hpp
@@ -67,7 +67,6 @@ namespace cafes
                                                geometry::box<int, Dimensions> const& box,
                                                std::vector<geometry::vector<double, Dimensions>>& forces,
                                                torque_type& torques,
-                                               std::vector<int> const& integration_points_size,
                                                std::array<double, Dimensions> const& h,
                                                bool compute_singularity)
     {
@@ -75,6 +74,8 @@ namespace cafes
       PetscFunctionBeginUser;
 
       std::size_t icontrol = 0;
+      // number of control points of each particle on all the processes
+      std::vector<int> num(particles.size());
       PetscScalar const *pcontrol;
       ierr = VecGetArrayRead(control, &pcontrol);CHKERRQ(ierr);
 
@@ -87,6 +88,7 @@ namespace cafes
         if (geometry::intersect(box, pbox)){
           auto new_box = geometry::overlap_box(box, pbox);
           auto pts = find_fluid_points_insides(p, new_box, h);
+          num[ipart] = pts.size();
           for(auto& ind: pts){
             std::array<double, Dimensions> g;
             for(std::size_t d=0; d<Dimensions; ++d){
@@ -96,13 +98,19 @@ namespace cafes
             set_torques(torques, ipart, p.center_, ind, g, h);
           }       
         }
-        forces[ipart] *= p.volume()/integration_points_size[ipart];
-        torques[ipart] *= p.volume()/integration_points_size[ipart]; 
       }
       ierr = VecRestoreArrayRead(control, &pcontrol);CHKERRQ(ierr);
 
       MPI_Allreduce(MPI_IN_PLACE, forces.data(), forces.size()*Dimensions, MPI_DOUBLE, MPI_SUM, PETSC_COMM_WORLD);
       MPI_Allreduce(MPI_IN_PLACE, torques.data(), torques.size()*(Dimensions==2?1:3), MPI_DOUBLE, MPI_SUM, PETSC_COMM_WORLD);
+      MPI_Allreduce(MPI_IN_PLACE, num.data(), num.size(), MPI_INT, MPI_SUM, PETSC_COMM_WORLD);
+
+      for(std::size_t ipart=0; ipart<particles.size(); ++ipart)
+      {
+        if (num[ipart] == 0) continue;
+        forces[ipart] *= particles[ipart].volume()/num[ipart];
+        torques[ipart] *= particles[ipart].volume()/num[ipart];
+      }
 
       if (compute_singularity)
       {
diff --git a/cafes/problem/ntod.hpp b/cafes/problem/ntod.hpp
index 015dbd1..3525f2a 100644
--- a/cafes/problem/ntod.hpp
+++ b/cafes/problem/ntod.hpp
@@ -114,7 +114,6 @@ namespace cafes
                                          box,
                                          forces,
                                          torques,
-                                         ctx->num,
                                          h,
                                          ctx->compute_singularity);CHKERRQ(ierr);
 
diff --git a/cafes/problem/sem.hpp b/cafes/problem/sem.hpp
index afb7e4c..fa0188c 100644
--- a/cafes/problem/sem.hpp
+++ b/cafes/problem/sem.hpp
@@ -253,7 +253,6 @@ namespace cafes
                                            box,
                                            forces,
                                            torques,
-                                           num_,
                                            h,
                                            false);CHKERRQ(ierr);
 
-- 
2.43.0


From cb9865a523b149260664e6f2ca7e62fbbb428bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:14 +0000
Subject: [PATCH 07/20] fix: sizes and spacings in the XDMF description of
 saved fields

---
 cafes/io/hdf5.hpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/cafes/io/hdf5.hpp b/cafes/io/hdf5.hpp
index f042650..1689bf0 100644
--- a/cafes/io/hdf5.hpp
+++ b/cafes/io/hdf5.hpp
@@ -40,8 +40,10 @@ namespace cafes
 {
     namespace io
     {
+        // XDMF gives sizes and spacings with the slowest direction first.
         void create_xdmf(const char *path, const char *filename,
-                         DMDALocalInfo const &info,
+                         DMDALocalInfo const &infou,
+                         DMDALocalInfo const &infop,
                          std::array<double, 2> const &h)
         {
             std::stringstream output;
@@ -61,19 +63,19 @@ namespace cafes
                 << "    <Grid Name=\"pressure_grid\" GridType=\"Uniform\">\n";
             myfile << "      <Topology TopologyType=\"2DCoRectMesh\" "
                       "NumberOfElements=\""
-                   << info.mx / 2 + 1 << " " << info.my / 2 + 1 << "\"/>\n";
+                   << infop.my << " " << infop.mx << "\"/>\n";
             myfile << "      <Geometry GeometryType=\"ORIGIN_DXDY\">\n";
             myfile << "        <DataItem DataType=\"Float\" Dimensions= \"2\" "
                       "Format=\"XML\">0.0 0.0 </DataItem>\n";
             myfile << "        <DataItem DataType=\"Float\" Dimensions= \"2\" "
                       "Format=\"XML\">"
-                   << 2 * h[0] << " " << 2 * h[1] << "</DataItem>\n";
+                   << 2 * h[1] << " " << 2 * h[0] << "</DataItem>\n";
             myfile << "      </Geometry>\n";
             myfile << "      <Attribute Name=\"pressure\" "
                       "AttributeType=\"Scalar\" Center=\"Node\">\n";
             myfile << "        <DataItem DataType=\"Float\" Precision=\"8\" "
                       "Format=\"HDF\" Dimensions=\""
-                   << info.mx / 2 << " " << info.my / 2 << "\">\n";
+                   << infop.my << " " << infop.mx << "\">\n";
             myfile << "          " << output_h5.str() << ":/pressure\n";
             myfile << "        </DataItem>\n";
             myfile << "      </Attribute>\n";
@@ -82,19 +84,19 @@ namespace cafes
                 << "    <Grid Name=\"velocity_grid\" GridType=\"Uniform\">\n";
             myfile << "      <Topology TopologyType=\"2DCoRectMesh\" "
                       "NumberOfElements=\""
-                   << info.mx << " " << info.my << "\"/>\n";
+                   << infou.my << " " << infou.mx << "\"/>\n";
             myfile << "      <Geometry GeometryType=\"ORIGIN_DXDY\">\n";
             myfile << "        <DataItem DataType=\"Float\" Dimensions= \"2\" "
                       "Format=\"XML\">0.0 0.0 </DataItem>\n";
             myfile << "        <DataItem DataType=\"Float\" Dimensions= \"2\" "
                       "Format=\"XML\">"
-                   << h[0] << " " << h[1] << "</DataItem>\n";
+                   << h[1] << " " << h[0] << "</DataItem>\n";
             myfile << "      </Geometry>\n";
             myfile << "      <Attribute Name=\"velocity\" "
                       "AttributeType=\"Vector\" Center=\"Node\">\n";
             myfile << "        <DataItem DataType=\"Float\" Precision=\"8\" "
                       "Format=\"HDF\" Dimensions=\""
-                   << info.mx << " " << info.my << " 2\">\n";
+                   << infou.my << " " << infou.mx << " 2\">\n";
             myfile << "          " << output_h5.str() << ":/velocity\n";
             myfile << "        </DataItem>\n";
             myfile << "      </Attribute>\n";
@@ -155,7 +157,7 @@ namespace cafes
             MPI_Comm_rank(PETSC_COMM_WORLD, &rank);
             if (rank == 0)
             {
-                create_xdmf(path, filename, infou, h);
+                create_xdmf(path, filename, infou, infop, h);
             }
 
             PetscFunctionReturn(0);
-- 
2.43.0


From 50f469091035ebfd3b1681efcbcf4d5358b7dfc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:33 +0000
Subject: [PATCH 08/20] fix: report a failure to write the XDMF description

---
 cafes/io/hdf5.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/cafes/io/hdf5.hpp b/cafes/io/hdf5.hpp
index 1689bf0..c02ed26 100644
--- a/cafes/io/hdf5.hpp
+++ b/cafes/io/hdf5.hpp
@@ -41,7 +41,8 @@ namespace cafes
     namespace io
     {
         // XDMF gives sizes and spacings with the slowest direction first.
-        void create_xdmf(const char *path, const char *filename,
+        // Returns false if the file could not be written.
+        bool create_xdmf(const char *path, const char *filename,
                          DMDALocalInfo const &infou,
                          DMDALocalInfo const &infop,
                          std::array<double, 2> const &h)
@@ -106,6 +107,7 @@ namespace cafes
             myfile << "</Xdmf>\n";
 
             myfile.close();
+            return !myfile.fail();
         }
 
 #undef __FUNCT__
@@ -155,9 +157,16 @@ namespace cafes
             CHKERRQ(ierr);
 
             MPI_Comm_rank(PETSC_COMM_WORLD, &rank);
+            int written = 1;
             if (rank == 0)
             {
-                create_xdmf(path, filename, infou, infop, h);
+                written = create_xdmf(path, filename, infou, infop, h);
+            }
+            MPI_Bcast(&written, 1, MPI_INT, 0, PETSC_COMM_WORLD);
+            if (!written)
+            {
+                ierr = PETSC_ERR_FILE_WRITE;
+                CHKERRQ(ierr);
             }
 
             PetscFunctionReturn(0);
-- 
2.43.0


From ebab9edb8dfe14f833fee1fd4c155713a425a492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:39 +0000
Subject: [PATCH 09/20] fix: add the singular field to the last solution on
 several processes and periodic grids

---
 cafes/particle/singularity/add_singularity.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cafes/particle/singularity/add_singularity.hpp b/cafes/particle/singularity/add_singularity.hpp
index 4799d7f..76b09e5 100644
--- a/cafes/particle/singularity/add_singularity.hpp
+++ b/cafes/particle/singularity/add_singularity.hpp
@@ -604,7 +604,7 @@ namespace cafes
             auto sol = petsc::petsc_vec<Dimensions>(ctx.problem.ctx->dm, vsol,
                                                     0, false);
 
-            ierr = sol.global_to_local(INSERT_VALUES);
+            ierr = sol.fill(0.);
             CHKERRQ(ierr);
 
             // Loop on particles couples
@@ -635,7 +635,7 @@ namespace cafes
                 }
             }
 
-            ierr = sol.local_to_global(INSERT_VALUES);
+            ierr = sol.local_to_global(ADD_VALUES);
             CHKERRQ(ierr);
 
             PetscFunctionReturn(0);
-- 
2.43.0


From 66c3abec276ca316503417aaae706c1e1f4c481b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:39 +0000
Subject: [PATCH 10/20] fix: pass on errors of vector access, matrix assembly
 and interpolation

---
 cafes/fem/assembling.hpp               | 19 ++++++++++---------
 cafes/fem/matrixFree.hpp               | 15 ++++++++-------
 cafes/petsc/vec.hpp                    | 13 +++++++------
 cafes/posttraitement/interpolation.hpp |  8 ++++----
 cafes/problem/particle_operator.hpp    |  4 ++--
 5 files changed, 31 insertions(+), 28 deletions(-)

diff --git a/cafes/fem/assembling.hpp b/cafes/fem/assembling.hpp
index ed63c33..c50cc24 100644
--- a/cafes/fem/assembling.hpp
+++ b/cafes/fem/assembling.hpp
@@ -465,8 +465,8 @@ namespace cafes
             for (std::size_t d = 0; d < info.dof; ++d)
             {
                 auto ielem = fem::get_indices(info, pos, d + dec);
-                MatSetValuesLocal(A, ielem.size(), ielem.data(), ielem.size(),
-                                  ielem.data(), matelem.data(), ADD_VALUES);
+                CHKERRABORT(PETSC_COMM_WORLD, MatSetValuesLocal(A, ielem.size(), ielem.data(), ielem.size(),
+                                  ielem.data(), matelem.data(), ADD_VALUES));
             }
         };
         return kernel_pos;
@@ -479,7 +479,8 @@ namespace cafes
         PetscErrorCode ierr;
 
         DMDALocalInfo info;
-        DMDAGetLocalInfo(dv, &info);
+        ierr = DMDAGetLocalInfo(dv, &info);
+        CHKERRQ(ierr);
 
         auto box = fem::get_DM_bounds<Dimensions>(dv);
 
@@ -519,8 +520,8 @@ namespace cafes
                                           auto const &matelem) {
         auto const kernel_pos = [&](auto const &pos) {
             auto ielem = fem::get_indices_tensor(info, pos);
-            MatSetValuesLocal(A, ielem.size(), ielem.data(), ielem.size(),
-                              ielem.data(), matelem.data(), ADD_VALUES);
+            CHKERRABORT(PETSC_COMM_WORLD, MatSetValuesLocal(A, ielem.size(), ielem.data(), ielem.size(),
+                              ielem.data(), matelem.data(), ADD_VALUES));
         };
         return kernel_pos;
     };
@@ -567,10 +568,10 @@ namespace cafes
             auto ielem_p = fem::get_indices(infop, pos, dec);
             auto ielem_v = fem::get_indices_4Q1(infov, pos);
 
-            MatSetValuesLocal(A, ielem_p.size(), ielem_p.data(), ielem_v.size(),
-                              ielem_v.data(), matelemB.data(), ADD_VALUES);
-            MatSetValuesLocal(A, ielem_v.size(), ielem_v.data(), ielem_p.size(),
-                              ielem_p.data(), matelemBT.data(), ADD_VALUES);
+            CHKERRABORT(PETSC_COMM_WORLD, MatSetValuesLocal(A, ielem_p.size(), ielem_p.data(), ielem_v.size(),
+                              ielem_v.data(), matelemB.data(), ADD_VALUES));
+            CHKERRABORT(PETSC_COMM_WORLD, MatSetValuesLocal(A, ielem_v.size(), ielem_v.data(), ielem_p.size(),
+                              ielem_p.data(), matelemBT.data(), ADD_VALUES));
         };
         return kernel_pos;
     };
diff --git a/cafes/fem/matrixFree.hpp b/cafes/fem/matrixFree.hpp
index 96f3c6e..85c4069 100644
--- a/cafes/fem/matrixFree.hpp
+++ b/cafes/fem/matrixFree.hpp
@@ -255,15 +255,16 @@ namespace cafes
             Mat A;
             int localsize, totalsize;
 
-            get_DM_sizes(ctx->dm, localsize, totalsize);
-            MatCreateShell(PETSC_COMM_WORLD, localsize, localsize, totalsize,
-                           totalsize, ctx, &A);
-            MatShellSetOperation(A, MATOP_MULT, (void (*)())(*method));
+            // there is no status to return from here
+            CHKERRABORT(PETSC_COMM_WORLD, get_DM_sizes(ctx->dm, localsize, totalsize));
+            CHKERRABORT(PETSC_COMM_WORLD, MatCreateShell(PETSC_COMM_WORLD, localsize, localsize, totalsize,
+                           totalsize, ctx, &A));
+            CHKERRABORT(PETSC_COMM_WORLD, MatShellSetOperation(A, MATOP_MULT, (void (*)())(*method)));
             if (ctx->apply_diag)
-                MatShellSetOperation(A, MATOP_GET_DIAGONAL,
-                                     (void (*)())(*method_diag));
+                CHKERRABORT(PETSC_COMM_WORLD, MatShellSetOperation(A, MATOP_GET_DIAGONAL,
+                                     (void (*)())(*method_diag)));
 
-            MatSetFromOptions(A);
+            CHKERRABORT(PETSC_COMM_WORLD, MatSetFromOptions(A));
 
             return A;
         }
diff --git a/cafes/petsc/vec.hpp b/cafes/petsc/vec.hpp
index 7a10b74..86ef4f9 100644
--- a/cafes/petsc/vec.hpp
+++ b/cafes/petsc/vec.hpp
@@ -53,7 +53,7 @@ namespace cafes
     {
       Vec vtmp[1];
       int entries[1] = {entry};
-      DMCompositeGetAccessArray(dm, v, 1, entries, vtmp);
+      CHKERRABORT(PETSC_COMM_WORLD, DMCompositeGetAccessArray(dm, v, 1, entries, vtmp));
       return vtmp[0];
     }
 
@@ -101,19 +101,20 @@ namespace cafes
           dm_ = dm;
         }
 
-        DMGetLocalVector(dm_, &v_);
+        // there is no status to return from here
+        CHKERRABORT(PETSC_COMM_WORLD, DMGetLocalVector(dm_, &v_));
 
         dof_ = fem::get_dof(dm_);
 
         if (readonly_)
         {
-          DMDAVecGetArrayDOFRead(dm_, v_, &pv_);
-          DMDAVecGetArrayDOFRead(dm_, v_entry_, &pvg_);
+          CHKERRABORT(PETSC_COMM_WORLD, DMDAVecGetArrayDOFRead(dm_, v_, &pv_));
+          CHKERRABORT(PETSC_COMM_WORLD, DMDAVecGetArrayDOFRead(dm_, v_entry_, &pvg_));
         }
         else
         {
-          DMDAVecGetArrayDOF(dm_, v_, &pv_);
-          DMDAVecGetArrayDOF(dm_, v_entry_, &pvg_);
+          CHKERRABORT(PETSC_COMM_WORLD, DMDAVecGetArrayDOF(dm_, v_, &pv_));
+          CHKERRABORT(PETSC_COMM_WORLD, DMDAVecGetArrayDOF(dm_, v_entry_, &pvg_));
         }
       }
 
diff --git a/cafes/posttraitement/interpolation.hpp b/cafes/posttraitement/interpolation.hpp
index 89f9959..5501cfa 100644
--- a/cafes/posttraitement/interpolation.hpp
+++ b/cafes/posttraitement/interpolation.hpp
@@ -77,14 +77,14 @@ namespace cafes
       PetscInt xstart, xend, ystart, yend, zstart, zend;
       PetscInt localsize;
 
-    	DMCompositeGetEntries(dm, &dav, &dap);
+    	ierr = DMCompositeGetEntries(dm, &dav, &dap);CHKERRQ(ierr);
     	ierr = DMDASetRefinementFactor(dav, refine[0], refine[1], PETSC_NULL);CHKERRQ(ierr);
       ierr = DMRefine(dav, PETSC_COMM_WORLD, &dav_refine);CHKERRQ(ierr);
       ierr = DMDASetRefinementFactor(dap, refine[0], refine[1], PETSC_NULL);CHKERRQ(ierr);
       ierr = DMRefine(dap, PETSC_COMM_WORLD, &dap_refine);CHKERRQ(ierr);
-      DMCompositeCreate(PETSC_COMM_WORLD, &dm_refine);
-      DMCompositeAddDM(dm_refine, dav_refine);
-      DMCompositeAddDM(dm_refine, dap_refine);
+      ierr = DMCompositeCreate(PETSC_COMM_WORLD, &dm_refine);CHKERRQ(ierr);
+      ierr = DMCompositeAddDM(dm_refine, dav_refine);CHKERRQ(ierr);
+      ierr = DMCompositeAddDM(dm_refine, dap_refine);CHKERRQ(ierr);
     	ierr = DMCreateGlobalVector(dm_refine, &sol_refine);CHKERRQ(ierr);
     	auto solv = petsc::petsc_vec<Dimensions>(dm, sol, 0);
       auto solv_ref = petsc::petsc_vec<Dimensions>(dm_refine, sol_refine, 0, false);
diff --git a/cafes/problem/particle_operator.hpp b/cafes/problem/particle_operator.hpp
index 785d2ec..0793e2c 100644
--- a/cafes/problem/particle_operator.hpp
+++ b/cafes/problem/particle_operator.hpp
@@ -396,9 +396,9 @@ namespace cafes
       auto& h = ctx.problem.ctx->h;
 
       auto sol = petsc::petsc_vec<Dimensions>(ctx.problem.ctx->dm, ctx.problem.sol, 0);
-      sol.global_to_local(INSERT_VALUES);
+      ierr = sol.global_to_local(INSERT_VALUES);CHKERRQ(ierr);
 
-      ierr = projection_impl(ctx.particles, sol, box, mean, cross_prod, ctx.num, ctx.scale, h);
+      ierr = projection_impl(ctx.particles, sol, box, mean, cross_prod, ctx.num, ctx.scale, h);CHKERRQ(ierr);
 
       MPI_Allreduce(MPI_IN_PLACE, mean.data(), mean.size()*Dimensions, MPI_DOUBLE, MPI_SUM, PETSC_COMM_WORLD);
       MPI_Allreduce(MPI_IN_PLACE, cross_prod.data(), cross_prod.size()*(Dimensions==2?1:3), MPI_DOUBLE, MPI_SUM, PETSC_COMM_WORLD);
-- 
2.43.0


From b82f479c7fe3cbfd07c3b8fa7c9063d871271c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:39 +0000
Subject: [PATCH 11/20] fix: stop when the set-up of a problem fails instead of
 going on with missing objects

---
 cafes/problem/dton.hpp   | 11 ++++---
 cafes/problem/sem.hpp    |  2 +-
 cafes/problem/stokes.hpp | 66 ++++++++++++++++++++--------------------
 3 files changed, 40 insertions(+), 39 deletions(-)

diff --git a/cafes/problem/dton.hpp b/cafes/problem/dton.hpp
index 9ef3cc6..06c36fe 100644
--- a/cafes/problem/dton.hpp
+++ b/cafes/problem/dton.hpp
@@ -134,10 +134,10 @@ namespace cafes
                  dpart_type dpart)
                 : parts_{parts}, problem_{p}, dpart_{dpart}
             {
-                problem_.setup_KSP();
-                VecDuplicate(problem_.sol, &sol_tmp);
-                VecDuplicate(problem_.sol, &sol_rhs);
-                VecDuplicate(problem_.sol, &sol_g);
+                CHKERRABORT(PETSC_COMM_WORLD, problem_.setup_KSP());
+                CHKERRABORT(PETSC_COMM_WORLD, VecDuplicate(problem_.sol, &sol_tmp));
+                CHKERRABORT(PETSC_COMM_WORLD, VecDuplicate(problem_.sol, &sol_rhs));
+                CHKERRABORT(PETSC_COMM_WORLD, VecDuplicate(problem_.sol, &sol_g));
             }
 
 #undef __FUNCT__
@@ -269,7 +269,8 @@ namespace cafes
                 // problem_.sol, problem_.ctx->dm,
                 // problem_.ctx->h);CHKERRQ(ierr);
 
-                VecAXPY(problem_.sol, 1, sol_rhs);
+                ierr = VecAXPY(problem_.sol, 1, sol_rhs);
+                CHKERRQ(ierr);
                 // ierr = cafes::io::save_hdf5("Resultats", "two_part_new_u",
                 // problem_.sol, problem_.ctx->dm,
                 // problem_.ctx->h);CHKERRQ(ierr);
diff --git a/cafes/problem/sem.hpp b/cafes/problem/sem.hpp
index fa0188c..3a99ae5 100644
--- a/cafes/problem/sem.hpp
+++ b/cafes/problem/sem.hpp
@@ -124,7 +124,7 @@ namespace cafes
       SEM(std::vector<particle<Shape>>const& parts, Problem_type& p, dpart_type dpart):
       parts_{parts}, problem_{p}, dpart_{dpart}
       {
-        problem_.setup_KSP();
+        CHKERRABORT(PETSC_COMM_WORLD, problem_.setup_KSP());
       }
       
       #undef __FUNCT__
diff --git a/cafes/problem/stokes.hpp b/cafes/problem/stokes.hpp
index 4c5d312..abe3639 100644
--- a/cafes/problem/stokes.hpp
+++ b/cafes/problem/stokes.hpp
@@ -200,14 +200,14 @@ namespace cafes
             stokes(fem::dirichlet_conditions<Dimensions> bc,
                    fem::rhs_conditions<Dimensions> rhsc = {nullptr})
             {
-                opt.process_options();
+                CHKERRABORT(PETSC_COMM_WORLD, opt.process_options());
 
                 DM mesh;
-                fem::createMesh<Dimensions>(mesh, opt.mx, opt.xperiod);
+                CHKERRABORT(PETSC_COMM_WORLD, fem::createMesh<Dimensions>(mesh, opt.mx, opt.xperiod));
 
-                DMCreateGlobalVector(mesh, &sol);
-                VecDuplicate(sol, &rhs);
-                VecSet(rhs, 0.);
+                CHKERRABORT(PETSC_COMM_WORLD, DMCreateGlobalVector(mesh, &sol));
+                CHKERRABORT(PETSC_COMM_WORLD, VecDuplicate(sol, &rhs));
+                CHKERRABORT(PETSC_COMM_WORLD, VecSet(rhs, 0.));
 
                 std::array<double, Dimensions> hu;
                 std::array<double, Dimensions> hp;
@@ -231,19 +231,19 @@ namespace cafes
                 ctx->set_dirichlet_bc(bc);
 
                 DM dav, dap;
-                DMCompositeGetEntries(mesh, &dav, &dap);
+                CHKERRABORT(PETSC_COMM_WORLD, DMCompositeGetEntries(mesh, &dav, &dap));
 
                 rhsc_ = rhsc;
 
                 // set Stokes matrix
                 if (opt.assembling)
                 {
-                    PreallocateMat(ctx, opt, MATAIJ, &A, false);
-                    PreallocateMat(ctx, opt, MATAIJ, &P, true);
-                    MatSetDM(A, mesh);
-                    MatSetDM(P, mesh);
-                    MatSetFromOptions(A);
-                    MatSetFromOptions(P);
+                    CHKERRABORT(PETSC_COMM_WORLD, PreallocateMat(ctx, opt, MATAIJ, &A, false));
+                    CHKERRABORT(PETSC_COMM_WORLD, PreallocateMat(ctx, opt, MATAIJ, &P, true));
+                    CHKERRABORT(PETSC_COMM_WORLD, MatSetDM(A, mesh));
+                    CHKERRABORT(PETSC_COMM_WORLD, MatSetDM(P, mesh));
+                    CHKERRABORT(PETSC_COMM_WORLD, MatSetFromOptions(A));
+                    CHKERRABORT(PETSC_COMM_WORLD, MatSetFromOptions(P));
 
                     if (opt.strain_tensor)
                     {
@@ -252,34 +252,34 @@ namespace cafes
                     }
                     else
                     {
-                        laplacian_assembling(dav, A, hu);
-                        laplacian_assembling(dav, P, hu);
+                        CHKERRABORT(PETSC_COMM_WORLD, laplacian_assembling(dav, A, hu));
+                        CHKERRABORT(PETSC_COMM_WORLD, laplacian_assembling(dav, P, hu));
                     }
 
-                    B_BT_assembling(mesh, A, hu);
+                    CHKERRABORT(PETSC_COMM_WORLD, B_BT_assembling(mesh, A, hu));
                     diagonal_assembling<Dimensions>(mesh, A, 0.);
-                    cafes::mass_assembling(mesh, P, hp);
+                    CHKERRABORT(PETSC_COMM_WORLD, cafes::mass_assembling(mesh, P, hp));
 
-                    MatAssemblyBegin(A, MAT_FINAL_ASSEMBLY);
-                    MatAssemblyEnd(A, MAT_FINAL_ASSEMBLY);
-                    MatAssemblyBegin(P, MAT_FINAL_ASSEMBLY);
-                    MatAssemblyEnd(P, MAT_FINAL_ASSEMBLY);
+                    CHKERRABORT(PETSC_COMM_WORLD, MatAssemblyBegin(A, MAT_FINAL_ASSEMBLY));
+                    CHKERRABORT(PETSC_COMM_WORLD, MatAssemblyEnd(A, MAT_FINAL_ASSEMBLY));
+                    CHKERRABORT(PETSC_COMM_WORLD, MatAssemblyBegin(P, MAT_FINAL_ASSEMBLY));
+                    CHKERRABORT(PETSC_COMM_WORLD, MatAssemblyEnd(P, MAT_FINAL_ASSEMBLY));
 
-                    cafes::fem::SetDirichletOnMat(A, bc);
-                    cafes::fem::SetDirichletOnMat(P, bc);
+                    CHKERRABORT(PETSC_COMM_WORLD, cafes::fem::SetDirichletOnMat(A, bc));
+                    CHKERRABORT(PETSC_COMM_WORLD, cafes::fem::SetDirichletOnMat(P, bc));
 
-                    CreatePressureNullSpace(mesh);
+                    CHKERRABORT(PETSC_COMM_WORLD, CreatePressureNullSpace(mesh));
                 }
                 else
                 {
                     // fix this to avoid raw pointer !!
                     A = fem::make_matrix<Ctx>(ctx, fem::stokes_matrix<Ctx>);
-                    MatSetDM(A, mesh);
-                    MatSetFromOptions(A);
+                    CHKERRABORT(PETSC_COMM_WORLD, MatSetDM(A, mesh));
+                    CHKERRABORT(PETSC_COMM_WORLD, MatSetFromOptions(A));
 
                     // set preconditionner of Stokes matrix
-                    DMSetMatType(dav, MATSHELL);
-                    DMSetMatType(dap, MATSHELL);
+                    CHKERRABORT(PETSC_COMM_WORLD, DMSetMatType(dav, MATSHELL));
+                    CHKERRABORT(PETSC_COMM_WORLD, DMSetMatType(dap, MATSHELL));
 
                     Ctx *slap = new Ctx{dav, hu, method, fem::diag_laplacian_mult};
                     slap->set_dirichlet_bc(bc);
@@ -293,10 +293,10 @@ namespace cafes
                     bA[0][1] = PETSC_NULL;
                     bA[1][0] = PETSC_NULL;
                     bA[1][1] = A22;
-                    MatCreateNest(PETSC_COMM_WORLD, 2, PETSC_NULL, 2,
-                                  PETSC_NULL, &bA[0][0], &P);
-                    MatSetDM(P, ctx->dm);
-                    MatSetFromOptions(P);
+                    CHKERRABORT(PETSC_COMM_WORLD, MatCreateNest(PETSC_COMM_WORLD, 2, PETSC_NULL, 2,
+                                  PETSC_NULL, &bA[0][0], &P));
+                    CHKERRABORT(PETSC_COMM_WORLD, MatSetDM(P, ctx->dm));
+                    CHKERRABORT(PETSC_COMM_WORLD, MatSetFromOptions(P));
                 }
             }
 
@@ -376,10 +376,10 @@ namespace cafes
 
                 auto lambda = [](const auto &dm, auto &v) {
                     auto xpetsc = petsc::petsc_vec<Dimensions>(dm, v, 1, false);
-                    xpetsc.fill_global(1.);
+                    return xpetsc.fill_global(1.);
                 };
 
-                lambda(mesh, tmp);
+                ierr = lambda(mesh, tmp);CHKERRQ(ierr);
                 ierr = VecNormalize(tmp, NULL);CHKERRQ(ierr);
 
                 ierr = MatNullSpaceCreate(PetscObjectComm((PetscObject)mesh),
-- 
2.43.0


From 79f3e2a49b751f07c48a098a1611a5b6500aee19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:39 +0000
Subject: [PATCH 12/20] fix: pass on errors of the Dirichlet rows and the mesh
 read

---
 cafes/fem/bc.hpp   | 8 ++++----
 cafes/fem/mesh.hpp | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/cafes/fem/bc.hpp b/cafes/fem/bc.hpp
index 78c9ee8..cec5f59 100644
--- a/cafes/fem/bc.hpp
+++ b/cafes/fem/bc.hpp
@@ -143,7 +143,7 @@ namespace cafes
       PetscErrorCode ierr;
       PetscFunctionBeginUser;
 
-      set_dirichlet_impl(x, y, bc, nullptr, kernel_vec_on_bc);
+      ierr = set_dirichlet_impl(x, y, bc, nullptr, kernel_vec_on_bc);CHKERRQ(ierr);
 
       PetscFunctionReturn(0);
     }
@@ -158,7 +158,7 @@ namespace cafes
       PetscErrorCode ierr;
       PetscFunctionBeginUser;
 
-      set_dirichlet_impl(nullptr, x, bc, h, kernel_func_on_bc);
+      ierr = set_dirichlet_impl(nullptr, x, bc, h, kernel_func_on_bc);CHKERRQ(ierr);
 
       PetscFunctionReturn(0);
     }
@@ -172,7 +172,7 @@ namespace cafes
       PetscErrorCode ierr;
       PetscFunctionBeginUser;
 
-      set_dirichlet_impl(0., x, bc, nullptr, kernel_const_on_bc);
+      ierr = set_dirichlet_impl(0., x, bc, nullptr, kernel_const_on_bc);CHKERRQ(ierr);
 
       PetscFunctionReturn(0);
     }
@@ -295,7 +295,7 @@ namespace cafes
       PetscErrorCode ierr;
       PetscFunctionBeginUser;
 
-      set_dirichlet_on_mat_impl(A, bc);
+      ierr = set_dirichlet_on_mat_impl(A, bc);CHKERRQ(ierr);
 
       PetscFunctionReturn(0);
     }
diff --git a/cafes/fem/mesh.hpp b/cafes/fem/mesh.hpp
index e812f06..4c51086 100644
--- a/cafes/fem/mesh.hpp
+++ b/cafes/fem/mesh.hpp
@@ -183,7 +183,7 @@ namespace cafes
     PetscInt* set_lxu(bool period, int nx, const PetscInt* lx)
     {
         PetscInt *lxu;
-        PetscMalloc1(nx, &lxu);
+        CHKERRABORT(PETSC_COMM_WORLD, PetscMalloc1(nx, &lxu));
         for(std::size_t i=0; i<nx; ++i) lxu[i] = 2*lx[i];
         if (!period)
           lxu[nx-1]--;
-- 
2.43.0


From 53a8e41e9b160a6430afeec5e34a5d0b4a5596f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:26 +0000
Subject: [PATCH 13/20] fix: apply_mass_matrix uses twice the velocity spacing
 for the pressure

---
 cafes/fem/matrixFree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cafes/fem/matrixFree.hpp b/cafes/fem/matrixFree.hpp
index 85c4069..e8da152 100644
--- a/cafes/fem/matrixFree.hpp
+++ b/cafes/fem/matrixFree.hpp
@@ -280,7 +280,7 @@ namespace cafes
             PetscFunctionBeginUser;
 
             auto hp = h;
-            std::for_each(hp.begin(), hp.end(), [](auto x) { x *= 2; });
+            std::for_each(hp.begin(), hp.end(), [](auto &x) { x *= 2; });
 
             using ctx = problem::context<Dimensions, 2>;
             ctx s{dm, {{h, hp}}, mass_mult};
-- 
2.43.0


From 58f57be25a2bacb28bf38d4e7b8d9a846bf0460d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:37 +0000
Subject: [PATCH 14/20] fix: solve the control problem of prescribed motions
 with its linear operator

With the treatment of close pairs on, the product used inside KSPSolve added
the constant term of the pairs, which belongs to the right-hand side only.
---
 cafes/problem/dton.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cafes/problem/dton.hpp b/cafes/problem/dton.hpp
index 06c36fe..c2a4a21 100644
--- a/cafes/problem/dton.hpp
+++ b/cafes/problem/dton.hpp
@@ -323,8 +323,8 @@ namespace cafes
                 {
                     ctx->compute_rhs = false;
                     ctx->add_rigid_motion = false;
-                    // ctx->compute_singularity = false;
-                    ctx->compute_singularity = use_sing;
+                    // the operator is linear: the singularity belongs to the rhs
+                    ctx->compute_singularity = false;
                 }
 
                 ierr = KSPSolve(ksp, rhs, sol);
-- 
2.43.0


From d21ad067e52aec202cc3f7308366230d1d032b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:37 +0000
Subject: [PATCH 15/20] fix: velocity of the close pair's field is that whose
 gradient is used

ux_sing_normalMvt2D held wrong terms in the derivatives of the cut-off: the
field added to the last solution was neither divergence free nor the one whose
gradient goes into the right-hand side.
---
 cafes/particle/singularity/UandPNormal.hpp | 101 +++------------------
 1 file changed, 11 insertions(+), 90 deletions(-)

diff --git a/cafes/particle/singularity/UandPNormal.hpp b/cafes/particle/singularity/UandPNormal.hpp
index 623c57d..9260bc8 100644
--- a/cafes/particle/singularity/UandPNormal.hpp
+++ b/cafes/particle/singularity/UandPNormal.hpp
@@ -86,96 +86,17 @@ namespace cafes
       double r  = X[1];
       double z  = X[0];
 
-      double t1 = r * r;
-      double t2 = H * t1;
-      double t3 = M * a;
-      double t4 = z * z;
-      double t5 = t3 * t4;
-      double t8 = a * a;
-      double t9 = t8 * M;
-      double t10 = t9 * z;
-      double t13 = t1 * t1;
-      double t14 = H * t13;
-      double t15 = M * M;
-      double t16 = t15 * a;
-      double t17 = t16 * z;
-      double t20 = H * H;
-      double t21 = t20 * t13;
-      double t22 = t3 * z;
-      double t31 = t15 * t1;
-      double t32 = a * t4;
-      double t35 = t13 * t1;
-      double t36 = H * t35;
-      double t37 = t15 * M;
-      double t41 = t20 * t1;
-      double t45 = t20 * H;
-      double t46 = t45 * t13;
-      double t51 = t45 * t35;
-      double t55 = t20 * t35;
-      double t59 = t15 * t15;
-      double t61 = t13 * t13;
-      double t64 = t8 * t45;
-      double t67 = t20 * t20;
-      double t68 = a * t67;
-      double t71 = t8 * a;
-      double t74 = t15 * t61;
-      double t89 = -24 * t51 * M * z - 48 * t55 * t15 * z - 5 * H * t59 * t61 + 96 * t64 * t13 + 8 * t68 * t35 - 32 * t41 * t71 + 4 * t74 * t45 - 4 * t37 * t61 * t20 + 5 * M * t61 * t67 - 32 * t71 * t15 * t1 - 24 * t8 * t37 * t13;
-      double t94 = t4 * z;
-      double t99 = H * a;
-      double t100 = t99 * t94;
-      double t102 = t3 * t94;
-      double t109 = H * t8;
-      double t110 = t109 * t4;
-      double t112 = t9 * t4;
-      double t114 = t8 * t8;
-      double t118 = t67 * H;
-      double t126 = a * t20;
-      double t133 = M * t1;
-      double t136 = t15 * t13;
-      double t139 = t37 * t35;
-      double t147 = t118 * t61 - 16 * M * t114 - t59 * M * t61 + 56 * t3 * t51 + 24 * t126 * t35 * t15 + 48 * t21 * t9 - 64 * H * t71 * t133 - 72 * t109 * t136 - 32 * t99 * t139 + 320 * t2 * M * t94 - 384 * t41 * t32;
-      double t155 = pow((2 * a + t133 + t2), 2);
-      double t156 = t155 * t155;
-      double t158 = 1. / (H + M) / t156;
-      double t159 = chiTrunc(r, l, eps);
-      double t162 = d2chiTrunc(r, l, eps);
-      double t163 = t162 * t13;
-      double t166 = t61 * t1;
-      double t167 = t162 * t166;
-      double t168 = t3 * t45;
-      double t173 = t162 * t35;
-      double t174 = H * M;
-      double t175 = t174 * t94;
-      double t186 = t162 * t61;
-      double t212 = t45 * t61;
-      double t226 = 128 * t163 * t102 - 56 * t167 * t168 + 128 * t163 * t100 + 64 * t173 * t175 - 144 * t173 * t16 * t4 - 36 * t167 * t16 * t20 - 288 * t163 * t112 - 72 * t186 * t9 * t20 + 48 * t173 * t126 * t4 - 96 * t163 * t110 + 24 * t186 * t20 * M * t4 - 24 * t186 * H * t15 * t4 - 192 * t14 * t162 * t71 * z - 24 * H * t166 * t162 * t37 * z - 48 * t212 * t162 * a * z - 192 * t55 * t162 * t8 * z - 24 * t45 * t166 * t162 * M * z;
-      double t232 = dchiTrunc(r, l, eps);
-      double t233 = t232 * t1;
-      double t236 = t232 * t13;
-      double t241 = t232 * t61;
-      double t244 = t232 * t8;
-      double t245 = t244 * t4;
-      double t250 = t232 * t166;
-      double t251 = t67 * M;
-      double t256 = t20 * t94;
-      double t259 = t15 * t94;
-      double t262 = t15 * t45;
-      double t265 = t232 * t4;
-      double t274 = t232 * t71;
-      double t280 = t162 * t61 * t13;
-      double t283 = -48 * t20 * t166 * t162 * t15 * z - 192 * t233 * t100 - 224 * t236 * t175 - 192 * t233 * t102 - 12 * t241 * t168 + 432 * t2 * t245 + 6 * t241 * t68 + 5 * t250 * t251 - 52 * t244 * t51 - 112 * t236 * t256 - 112 * t236 * t259 + 7 * t250 * t262 - 60 * t51 * t265 + 60 * t139 * t265 + 3 * t37 * t166 * t232 * t20 - 120 * t274 * t21 - 20 * t167 * t68 - 10 * t280 * t251;
-      double t285 = t162 * t1;
-      double t323 = H * t61;
-      double t330 = 128 * t285 * t8 * t94 - 56 * t186 * t64 + 32 * t173 * t259 - 14 * t280 * t262 + 32 * t173 * t256 - 192 * t285 * t71 * t4 - 48 * t173 * t71 * t20 - 24 * t186 * t37 * t4 - 6 * t280 * t37 * t20 + 24 * t186 * t45 * t4 + 64 * t244 * t94 - 96 * t274 * t4 + t250 * t118 - 2 * t280 * t118 - 96 * t173 * a * t174 * t4 - 144 * t323 * t162 * t17 - 288 * t36 * t162 * t10;
-      double t331 = t20 * t61;
-      double t339 = t244 * z;
-      double t343 = t232 * a;
-      double t344 = t343 * z;
-      double t350 = t343 * t4;
-      double t353 = t232 * t15;
-      double t357 = t232 * M;
-      double t389 = -192 * t331 * t162 * t22 + 336 * t14 * t232 * t5 - 144 * t14 * M * t339 + 72 * t36 * t15 * t344 + 192 * t55 * t232 * t22 + 120 * t21 * t350 + 60 * t36 * t353 * t4 - 60 * t55 * t357 * t4 + 144 * t133 * t245 - 108 * M * t35 * t244 * t20 + 216 * t136 * t350 - 18 * t74 * t343 * t20 + 36 * t323 * t37 * t232 * z + 96 * t21 * t339 + 120 * t51 * t344 + 72 * t331 * t353 * z + 36 * t212 * t357 * z - 288 * t2 * t274 * z;
-      return U * (-480 * t2 * t5 + 288 * t2 * t10 + 96 * t14 * t17 - 48 * t21 * t22 + 72 * t21 * M * t4 - 72 * t14 * t15 * t4 - 96 * t31 * t32 - 24 * t36 * t37 * z + 288 * t41 * t8 * z - 144 * t46 * a * z + t89 - 8 * a * t59 * t35 + 160 * t41 * t94 + 160 * t31 * t94 - 64 * t100 - 64 * t102 + 72 * t46 * t4 - 72 * t37 * t13 * t4 + 96 * t110 + 96 * t112 - 16 * H * t114 + t147) * t158 * t159 / 2 + U * (t226 + t283 + t330 + t389) * t158 / 2;
+      // minus the derivative along r of the flux -U r chi t^2 (3 - 2t) of uz
+      // between the first particle (t = 0) and z, so that the divergence is zero;
+      // the second particle is at t = 1
+      double G   = 2 * a + (H + M) * r * r;
+      double t   = (H * r * r + 2 * z) / G;
+      double rdt = 2 * r * r * (H - t * (H + M)) / G;
+      double f   = t * t * (3 - 2 * t);
+      double chi = chiTrunc(r, l, eps);
+      // dchiTrunc is the derivative along r*r
+      double dchi = 2 * r * r * dchiTrunc(r, l, eps);
+      return U * (chi * (f + 6 * t * (1 - t) * rdt - .5) + f * dchi);
     }
 
     PetscScalar dzuz_sing_normalMvt2D(position2d X, PetscReal H, PetscReal M, PetscReal a, double U, PetscReal l, PetscReal eps, PetscReal* param  )
-- 
2.43.0


From 32d8ebcb65cfbd820e2399e0155948a369d7f4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:43 +0000
Subject: [PATCH 16/20] fix: setup_RHS of particle problems starts from zero
 control

It used whatever an earlier solve had left in sol, so a second
setup_RHS and solve of the same problem gave a wrong result.
---
 cafes/problem/dton.hpp | 3 +++
 cafes/problem/sem.hpp  | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/cafes/problem/dton.hpp b/cafes/problem/dton.hpp
index c2a4a21..d26c2fd 100644
--- a/cafes/problem/dton.hpp
+++ b/cafes/problem/dton.hpp
@@ -189,6 +189,9 @@ namespace cafes
                     // ctx->compute_singularity = false;
                 }
 
+                // at zero control, whatever an earlier solve has left in sol
+                ierr = VecSet(sol, 0.);
+                CHKERRQ(ierr);
                 ierr = MatMult(A, sol, rhs);
                 CHKERRQ(ierr);
                 ierr = VecScale(rhs, -1.);
diff --git a/cafes/problem/sem.hpp b/cafes/problem/sem.hpp
index 3a99ae5..2101c0c 100644
--- a/cafes/problem/sem.hpp
+++ b/cafes/problem/sem.hpp
@@ -161,6 +161,8 @@ namespace cafes
 
         ctx->compute_rhs = true;
 
+        // at zero control, whatever an earlier solve has left in sol
+        ierr = VecSet(sol, 0.);CHKERRQ(ierr);
         ierr = MatMult(A, sol, rhs);CHKERRQ(ierr);
         ierr = VecScale(rhs, -1.);CHKERRQ(ierr);
 
-- 
2.43.0


From 8ed4a4207add448b48ae30730a18ccb685d4609d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:02 +0000
Subject: [PATCH 17/20] fix: allow an empty list of particles with the
 treatment of close pairs

The loops over pairs compared with size() - 1, which wraps around for an
empty list, and read past its end.
---
 cafes/particle/singularity/add_singularity.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/cafes/particle/singularity/add_singularity.hpp b/cafes/particle/singularity/add_singularity.hpp
index 76b09e5..ee94795 100644
--- a/cafes/particle/singularity/add_singularity.hpp
+++ b/cafes/particle/singularity/add_singularity.hpp
@@ -546,7 +546,7 @@ namespace cafes
             // ctx.problem.rhs, 1, false); ierr = solp.fill(0.);CHKERRQ(ierr);
 
             // Loop on particles couples
-            for (std::size_t ipart = 0; ipart < ctx.particles.size() - 1;
+            for (std::size_t ipart = 0; ipart + 1 < ctx.particles.size();
                  ++ipart)
             {
                 auto p1 = ctx.particles[ipart];
@@ -608,7 +608,7 @@ namespace cafes
             CHKERRQ(ierr);
 
             // Loop on particles couples
-            for (std::size_t ipart = 0; ipart < ctx.particles.size() - 1;
+            for (std::size_t ipart = 0; ipart + 1 < ctx.particles.size();
                  ++ipart)
             {
                 auto p1 = ctx.particles[ipart];
@@ -886,7 +886,7 @@ namespace cafes
                 ctx.particles[ipart].force_.fill(0.);
 
             // Loop on particles couples
-            for (std::size_t ipart = 0; ipart < ctx.particles.size() - 1;
+            for (std::size_t ipart = 0; ipart + 1 < ctx.particles.size();
                  ++ipart)
             {
                 auto p1 = ctx.particles[ipart];
@@ -927,7 +927,7 @@ namespace cafes
                 forces[ipart].fill(0.);
 
             // Loop on particles couples
-            for (std::size_t ipart = 0; ipart < particles.size() - 1; ++ipart)
+            for (std::size_t ipart = 0; ipart + 1 < particles.size(); ++ipart)
             {
                 auto p1 = particles[ipart];
                 for (std::size_t jpart = ipart + 1; jpart < particles.size();
@@ -968,7 +968,7 @@ namespace cafes
             auto &h = ctx.problem.ctx->h;
 
             // Loop on particles couples
-            for (std::size_t ipart = 0; ipart < ctx.particles.size() - 1;
+            for (std::size_t ipart = 0; ipart + 1 < ctx.particles.size();
                  ++ipart)
             {
                 auto p1 = ctx.particles[ipart];
@@ -1019,7 +1019,7 @@ namespace cafes
             auto &h = ctx.problem.ctx->h;
 
             // Loop on particles couples
-            for (std::size_t ipart = 0; ipart < ctx.particles.size() - 1;
+            for (std::size_t ipart = 0; ipart + 1 < ctx.particles.size();
                  ++ipart)
             {
                 auto p1 = ctx.particles[ipart];
-- 
2.43.0


From 74573390d7c7eea3ae253f6849b0ede2ad4f9ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:09 +0000
Subject: [PATCH 18/20] fix: linear_interpolation kept a reference to both
 refined grids, so they were never freed

---
 cafes/posttraitement/interpolation.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cafes/posttraitement/interpolation.hpp b/cafes/posttraitement/interpolation.hpp
index 5501cfa..d66cd66 100644
--- a/cafes/posttraitement/interpolation.hpp
+++ b/cafes/posttraitement/interpolation.hpp
@@ -139,6 +139,10 @@ namespace cafes
       auto boxp = fem::get_DM_bounds<Dimensions>(dap_refine, false);
       algorithm::iterate(boxp, kernel(solp, solp_ref, refine, h));
 
+      // the refined composite mesh holds the two refined grids
+      ierr = DMDestroy(&dav_refine);CHKERRQ(ierr);
+      ierr = DMDestroy(&dap_refine);CHKERRQ(ierr);
+
       PetscFunctionReturn(0);
     }
 
-- 
2.43.0


From 5f2494e952c86143c5e3f03399b6b1bab247ddf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:58 +0000
Subject: [PATCH 19/20] fix: setting up a particle problem again kept the
 counts of the last time

---
 cafes/particle/particle.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cafes/particle/particle.hpp b/cafes/particle/particle.hpp
index b02681a..85b017a 100644
--- a/cafes/particle/particle.hpp
+++ b/cafes/particle/particle.hpp
@@ -253,10 +253,12 @@ namespace cafes
                      nb_type& nb_surf_points, num_type& num, box_type const& box,
                      std::array<double, Dimensions> const &h, dpart_type const& dpart, std::size_t const scale)
   {
+    surf_points.clear();
     surf_points.resize(parts.size());
+    radial_vec.clear();
     radial_vec.resize(parts.size());
-    nb_surf_points.resize(parts.size());
-    num.resize(parts.size());
+    nb_surf_points.assign(parts.size(), 0);
+    num.assign(parts.size(), 0);
 
     std::size_t size = 0;
     std::size_t ipart = 0;
-- 
2.43.0


From cf881dac778fe8050bbcdfc9101730f0d0b97d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:41:06 +0000
Subject: [PATCH 20/20] fix: whether a node on a particle's boundary is inside
 depended on where the process's box begins

---
 cafes/particle/particle.hpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/cafes/particle/particle.hpp b/cafes/particle/particle.hpp
index 85b017a..bdc6a52 100644
--- a/cafes/particle/particle.hpp
+++ b/cafes/particle/particle.hpp
@@ -114,12 +114,12 @@ namespace cafes
       std::vector<geometry::position<int, 2>> that;
       that.reserve(b.length());
 
-      double x, y;
+      // the coordinates of a node do not depend on where the box begins
       std::size_t ix, iy;
-      for(y=b.bottom_left[1]*h[1], iy=b.bottom_left[1]; iy<b.upper_right[1]; y+=h[1], ++iy)
-          for(x=b.bottom_left[0]*h[0], ix=b.bottom_left[0]; ix<b.upper_right[0]; x+=h[0], ++ix)
+      for(iy=b.bottom_left[1]; iy<b.upper_right[1]; ++iy)
+          for(ix=b.bottom_left[0]; ix<b.upper_right[0]; ++ix)
           {
-              cafes::geometry::position<double, 2> pt {x,y};
+              cafes::geometry::position<double, 2> pt {ix*h[0], iy*h[1]};
               if(p.contains(pt)) that.push_back({ix, iy});
           }
 
@@ -132,13 +132,12 @@ namespace cafes
     std::vector<geometry::position<int, 3>> that;
     that.reserve(b.length());
 
-    double x, y, z;
     std::size_t ix, iy, iz;
-    for(z=b.bottom_left[2]*h[2], iz=b.bottom_left[2]; iz<b.upper_right[2]; z+=h[2], ++iz)
-        for(y=b.bottom_left[1]*h[1], iy=b.bottom_left[1]; iy<b.upper_right[1]; y+=h[1], ++iy)
-            for(x=b.bottom_left[0]*h[0], ix=b.bottom_left[0]; ix<b.upper_right[0]; x+=h[0], ++ix)
+    for(iz=b.bottom_left[2]; iz<b.upper_right[2]; ++iz)
+        for(iy=b.bottom_left[1]; iy<b.upper_right[1]; ++iy)
+            for(ix=b.bottom_left[0]; ix<b.upper_right[0]; ++ix)
             {
-               cafes::geometry::position<double, 3> pt {x, y, z};
+               cafes::geometry::position<double, 3> pt {ix*h[0], iy*h[1], iz*h[2]};
                if(p.contains(pt)) that.push_back({ix, iy, iz});
             }   
 
-- 
2.43.0

