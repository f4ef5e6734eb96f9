From 96ea38ceb1e731453d4ea3dfaee9fca8b26380b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:37 +0000
Subject: [PATCH 01/27] fix: Green-Naghdi run with a locality that holds no
 submeshes dereferenced an empty list

---
 .../kernels_preprocessor/ehdg_gn_pre_ompi.hpp                | 5 ++++-
 .../kernels_processor/ehdg_gn_proc_ompi_sol_glob_prob.hpp    | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/source/problem/Green-Naghdi/discretization_EHDG/kernels_preprocessor/ehdg_gn_pre_ompi.hpp b/source/problem/Green-Naghdi/discretization_EHDG/kernels_preprocessor/ehdg_gn_pre_ompi.hpp
index d4598a8..b0c0406 100644
--- a/source/problem/Green-Naghdi/discretization_EHDG/kernels_preprocessor/ehdg_gn_pre_ompi.hpp
+++ b/source/problem/Green-Naghdi/discretization_EHDG/kernels_preprocessor/ehdg_gn_pre_ompi.hpp
@@ -64,7 +64,10 @@ void Problem::preprocessor_ompi(std::vector<std::unique_ptr<OMPISimUnitType>>& s
         }
         MPI_Bcast(&n_dc_global_dofs, 1, MPI_UNSIGNED, 0, MPI_COMM_WORLD);
 
-        const uint n_global_dofs = (sim_units.front()->discretization.mesh.GetP() + 1) * GN::n_dimensions;
+        // a locality may hold no submeshes, yet it takes part in the collective operations with the same block size
+        uint n_local_dofs  = sim_units.empty() ? 0 : (sim_units.front()->discretization.mesh.GetP() + 1) * GN::n_dimensions;
+        uint n_global_dofs = 0;
+        MPI_Allreduce(&n_local_dofs, &n_global_dofs, 1, MPI_UNSIGNED, MPI_MAX, MPI_COMM_WORLD);
         MatCreateBAIJ(MPI_COMM_WORLD,
                       n_global_dofs,
                       n_global_dofs * dc_global_dof_offset,
diff --git a/source/problem/Green-Naghdi/discretization_EHDG/kernels_processor/ehdg_gn_proc_ompi_sol_glob_prob.hpp b/source/problem/Green-Naghdi/discretization_EHDG/kernels_processor/ehdg_gn_proc_ompi_sol_glob_prob.hpp
index de2db49..45d893a 100644
--- a/source/problem/Green-Naghdi/discretization_EHDG/kernels_processor/ehdg_gn_proc_ompi_sol_glob_prob.hpp
+++ b/source/problem/Green-Naghdi/discretization_EHDG/kernels_processor/ehdg_gn_proc_ompi_sol_glob_prob.hpp
@@ -472,7 +472,10 @@ void Problem::reset_PETSC_solver(std::vector<std::unique_ptr<OMPISimUnitType>>&
     }
     MPI_Bcast(&n_dc_global_dofs, 1, MPI_UNSIGNED, 0, MPI_COMM_WORLD);
 
-    const uint n_global_dofs = (sim_units.front()->discretization.mesh.GetP() + 1) * GN::n_dimensions;
+    // a locality may hold no submeshes, yet it takes part in the collective operations with the same block size
+    uint n_local_dofs  = sim_units.empty() ? 0 : (sim_units.front()->discretization.mesh.GetP() + 1) * GN::n_dimensions;
+    uint n_global_dofs = 0;
+    MPI_Allreduce(&n_local_dofs, &n_global_dofs, 1, MPI_UNSIGNED, MPI_MAX, MPI_COMM_WORLD);
     MatCreateBAIJ(MPI_COMM_WORLD,
                   n_global_dofs,
                   n_global_dofs * dc_global_dof_offset,
-- 
2.43.0


From 26b60036d1920e2d65a51195cd5eadf997f49c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:30 +0000
Subject: [PATCH 02/27] fix: partitioner left pieces of an earlier partitioning
 for the simulation to pick up

---
 partitioner/partitioner.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/partitioner/partitioner.cpp b/partitioner/partitioner.cpp
index f63c048..ae5056c 100644
--- a/partitioner/partitioner.cpp
+++ b/partitioner/partitioner.cpp
@@ -7,6 +7,7 @@
 
 #include <cassert>
 #include <chrono>
+#include <cstdio>
 #include <sstream>
 #include <vector>
 
@@ -93,6 +94,18 @@ int main(int argc, char** argv) {
 
             submeshes[n][m].write_to(outname);
         }
+
+        // The simulation reads submeshes of a locality until the first missing index: drop what an earlier, finer
+        // partitioning of this mesh left behind.
+        for (uint m = submeshes[n].size();; ++m) {
+            std::string stale = input_mesh_str.substr(0, input_mesh_str.find_last_of(".")) + "_" + std::to_string(n) +
+                                "_" + std::to_string(m);
+
+            std::remove((stale + ".dbmd").c_str());
+            if (std::remove((stale + ".meta").c_str()) != 0) {
+                break;
+            }
+        }
     }
 
     write_distributed_edge_metadata(input_mesh_str, input, mesh_meta, submeshes);
-- 
2.43.0


From d60b9fd66310f57776060a25cad5a63d140c9077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:26 +0000
Subject: [PATCH 03/27] fix: implicit HDG tide and flow boundaries took phases
 in degrees as radians

The implicit part of the step evaluated the boundary forcing without the
conversion used by the explicit part and by the other discretizations, so the
prescribed elevation or discharge jumped between the two parts of a step.
---
 .../boundary_conditions/ihdg_swe_bc_flow.hpp                  | 4 ++--
 .../boundary_conditions/ihdg_swe_bc_tide.hpp                  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/problem/SWE/discretization_IHDG/boundary_conditions/ihdg_swe_bc_flow.hpp b/source/problem/SWE/discretization_IHDG/boundary_conditions/ihdg_swe_bc_flow.hpp
index a6455f1..4f36ea7 100644
--- a/source/problem/SWE/discretization_IHDG/boundary_conditions/ihdg_swe_bc_flow.hpp
+++ b/source/problem/SWE/discretization_IHDG/boundary_conditions/ihdg_swe_bc_flow.hpp
@@ -156,8 +156,8 @@ void Flow::ComputeGlobalKernels(const StepperType& stepper, EdgeBoundaryType& ed
     for (uint con = 0; con < this->frequency.size(); ++con) {
         for (uint gp = 0; gp < columns(boundary.q_at_gp); ++gp) {
             this->qn[gp] += stepper.GetRampNext() * this->forcing_fact[con] * this->amplitude_gp[con][gp] *
-                            cos(this->frequency[con] * stepper.GetTimeAtNextStage() + this->equilib_arg[con] -
-                                this->phase_gp[con][gp]);
+                            cos(this->frequency[con] * stepper.GetTimeAtNextStage() +
+                                (this->equilib_arg[con] - this->phase_gp[con][gp]) * PI / 180);
         }
     }
 
diff --git a/source/problem/SWE/discretization_IHDG/boundary_conditions/ihdg_swe_bc_tide.hpp b/source/problem/SWE/discretization_IHDG/boundary_conditions/ihdg_swe_bc_tide.hpp
index 23c7fc5..89c7a82 100644
--- a/source/problem/SWE/discretization_IHDG/boundary_conditions/ihdg_swe_bc_tide.hpp
+++ b/source/problem/SWE/discretization_IHDG/boundary_conditions/ihdg_swe_bc_tide.hpp
@@ -153,7 +153,7 @@ void Tide::ComputeGlobalKernels(const StepperType& stepper, EdgeBoundaryType& ed
             this->q_ex(SWE::Variables::ze, gp) += stepper.GetRampNext() * this->forcing_fact[con] *
                                                   this->amplitude_gp[con][gp] *
                                                   cos(this->frequency[con] * stepper.GetTimeAtNextStage() +
-                                                      this->equilib_arg[con] - this->phase_gp[con][gp]);
+                                                      (this->equilib_arg[con] - this->phase_gp[con][gp]) * PI / 180);
         }
     }
 
-- 
2.43.0


From 911213da6d063d0f0fb9be97fde7bc47778185c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:19 +0000
Subject: [PATCH 04/27] fix: a multi-process run that stopped on an invalid
 solution reported success

MPI_Abort was given error code 0, which mpirun passes on as its exit status.
---
 .../kernels_processor/ehdg_swe_proc_ompi_step.hpp               | 2 +-
 .../kernels_processor/ihdg_swe_proc_ompi_step.hpp               | 2 +-
 .../kernels_processor/rkdg_swe_proc_ompi_step.hpp               | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/problem/SWE/discretization_EHDG/kernels_processor/ehdg_swe_proc_ompi_step.hpp b/source/problem/SWE/discretization_EHDG/kernels_processor/ehdg_swe_proc_ompi_step.hpp
index 22fe33c..265da1c 100644
--- a/source/problem/SWE/discretization_EHDG/kernels_processor/ehdg_swe_proc_ompi_step.hpp
+++ b/source/problem/SWE/discretization_EHDG/kernels_processor/ehdg_swe_proc_ompi_step.hpp
@@ -146,7 +146,7 @@ void Problem::stage_ompi(std::vector<std::unique_ptr<OMPISimUnitType<ProblemType
             bool nan_found = SWE::scrutinize_solution(stepper, elt);
 
             if (nan_found)
-                MPI_Abort(MPI_COMM_WORLD, 0);
+                MPI_Abort(MPI_COMM_WORLD, EXIT_FAILURE);
         });
     }
 
diff --git a/source/problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_ompi_step.hpp b/source/problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_ompi_step.hpp
index 6e06743..dbeff54 100644
--- a/source/problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_ompi_step.hpp
+++ b/source/problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_ompi_step.hpp
@@ -114,7 +114,7 @@ void Problem::stage_ompi(std::vector<std::unique_ptr<OMPISimUnitType<ProblemType
             bool nan_found = SWE::scrutinize_solution(stepper, elt);
 
             if (nan_found)
-                MPI_Abort(MPI_COMM_WORLD, 0);
+                MPI_Abort(MPI_COMM_WORLD, EXIT_FAILURE);
         });
     }
 }
diff --git a/source/problem/SWE/discretization_RKDG/kernels_processor/rkdg_swe_proc_ompi_step.hpp b/source/problem/SWE/discretization_RKDG/kernels_processor/rkdg_swe_proc_ompi_step.hpp
index 4d00566..f12fe36 100644
--- a/source/problem/SWE/discretization_RKDG/kernels_processor/rkdg_swe_proc_ompi_step.hpp
+++ b/source/problem/SWE/discretization_RKDG/kernels_processor/rkdg_swe_proc_ompi_step.hpp
@@ -122,7 +122,7 @@ void Problem::stage_ompi(std::vector<std::unique_ptr<OMPISimUnitType<ProblemType
             bool nan_found = SWE::scrutinize_solution(stepper, elt);
 
             if (nan_found)
-                MPI_Abort(MPI_COMM_WORLD, 0);
+                MPI_Abort(MPI_COMM_WORLD, EXIT_FAILURE);
         });
     }
 
-- 
2.43.0


From 5a15e7ea089aafe06c5bcf47f2bd8d5aaebaf5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:00 +0000
Subject: [PATCH 05/27] fix: files that exist but could not be opened were
 taken as missing

A locality whose submesh file failed to open (out of file descriptors, I/O
error, permissions) ran on without that submesh and ended with success.
---
 source/utilities/file_exists.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/source/utilities/file_exists.hpp b/source/utilities/file_exists.hpp
index cdfde30..51f316d 100644
--- a/source/utilities/file_exists.hpp
+++ b/source/utilities/file_exists.hpp
@@ -1,6 +1,10 @@
 #ifndef FILE_EXISTS_HPP
 #define FILE_EXISTS_HPP
 
+#include <cerrno>
+#include <cstring>
+#include <stdexcept>
+
 #include "general_definitions.hpp"
 
 namespace Utilities {
@@ -10,6 +14,8 @@ namespace Utilities {
  * performance measurements done by
  * <a href="https://stackoverflow.com/a/12774387">PherricOxide's answer</a>.
  *
+ * A file that exists but can not be opened for another reason is an error.
+ *
  * @param file_name name of file
  * @return Whether or not the file exists
  */
@@ -17,8 +23,11 @@ inline bool file_exists(const std::string& file_name) {
     if (FILE* file = fopen(file_name.c_str(), "r")) {
         fclose(file);
         return true;
-    } else {
+    } else if (errno == ENOENT || errno == ENOTDIR) {
         return false;
+    } else {
+        throw std::runtime_error("Fatal Error: file " + file_name + " could not be opened: " + std::strerror(errno) +
+                                 "!\n");
     }
 }
 }
-- 
2.43.0


From 3175dace9a4b912b82cb7e5c6807fbd0d0fe2a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:46 +0000
Subject: [PATCH 06/27] fix: results lost to failed writes went unnoticed

No stream was checked after writing, so a full disk, an I/O error or a missing
output directory left truncated or missing results behind a successful run.
---
 .../swe_post_write_modal.hpp                  | 10 ++++----
 source/simulation/writer.hpp                  | 15 ++++++------
 source/utilities/check_stream.hpp             | 24 +++++++++++++++++++
 3 files changed, 38 insertions(+), 11 deletions(-)
 create mode 100644 source/utilities/check_stream.hpp

diff --git a/source/problem/SWE/problem_postprocessor/swe_post_write_modal.hpp b/source/problem/SWE/problem_postprocessor/swe_post_write_modal.hpp
index 18d6ed5..72b5fe8 100644
--- a/source/problem/SWE/problem_postprocessor/swe_post_write_modal.hpp
+++ b/source/problem/SWE/problem_postprocessor/swe_post_write_modal.hpp
@@ -1,6 +1,8 @@
 #ifndef SWE_POST_WRITE_MODAL_HPP
 #define SWE_POST_WRITE_MODAL_HPP
 
+#include "utilities/check_stream.hpp"
+
 namespace SWE {
 template <typename StepperType, typename MeshType>
 void write_modal_data(const StepperType& stepper, MeshType& mesh, const std::string& output_path) {
@@ -30,7 +32,7 @@ void write_modal_data(const StepperType& stepper, MeshType& mesh, const std::str
         }
     }
 
-    file.close();
+    Utilities::close_written(file, file_name);
 
     file_name = output_path + mesh.GetMeshName() + "_modal_qx.txt";
     if (stepper.GetStep() == 0) {
@@ -48,7 +50,7 @@ void write_modal_data(const StepperType& stepper, MeshType& mesh, const std::str
         }
     }
 
-    file.close();
+    Utilities::close_written(file, file_name);
 
     file_name = output_path + mesh.GetMeshName() + "_modal_qy.txt";
     if (stepper.GetStep() == 0) {
@@ -66,7 +68,7 @@ void write_modal_data(const StepperType& stepper, MeshType& mesh, const std::str
         }
     }
 
-    file.close();
+    Utilities::close_written(file, file_name);
 
     file_name = output_path + mesh.GetMeshName() + "_modal_bath.txt";
     if (stepper.GetStep() == 0) {
@@ -84,7 +86,7 @@ void write_modal_data(const StepperType& stepper, MeshType& mesh, const std::str
         }
     }
 
-    file.close();
+    Utilities::close_written(file, file_name);
 }
 }
 
diff --git a/source/simulation/writer.hpp b/source/simulation/writer.hpp
index cb27169..0d92bdb 100644
--- a/source/simulation/writer.hpp
+++ b/source/simulation/writer.hpp
@@ -4,6 +4,7 @@
 #include <sys/stat.h>
 #include "general_definitions.hpp"
 #include "preprocessor/input_parameters.hpp"
+#include "utilities/check_stream.hpp"
 
 template <typename ProblemType>
 class Writer {
@@ -125,7 +126,7 @@ void Writer<ProblemType>::WriteOutput(const typename ProblemType::ProblemStepper
 
         ProblemType::write_VTK_data(mesh, raw_data_file);
 
-        raw_data_file.close();
+        Utilities::close_written(raw_data_file, this->vtk_file_name_raw);
 
         if (!Utilities::file_exists(this->vtk_file_name_geom)) {
             throw std::logic_error("Fatal Error: vtk geometry data file " + this->vtk_file_name_geom +
@@ -145,7 +146,7 @@ void Writer<ProblemType>::WriteOutput(const typename ProblemType::ProblemStepper
 
         file_merge << file_geom.rdbuf() << file_data.rdbuf();
 
-        file_merge.close();
+        Utilities::close_written(file_merge, file_name_merge);
         file_geom.close();
         file_data.close();
     }
@@ -155,7 +156,7 @@ void Writer<ProblemType>::WriteOutput(const typename ProblemType::ProblemStepper
 
         ProblemType::write_VTU_data(mesh, raw_data_file);
 
-        raw_data_file.close();
+        Utilities::close_written(raw_data_file, this->vtu_file_name_raw);
 
         if (!Utilities::file_exists(this->vtu_file_name_geom_head)) {
             throw std::logic_error("Fatal Error: vtu geometry head data file " + this->vtu_file_name_geom_head +
@@ -181,7 +182,7 @@ void Writer<ProblemType>::WriteOutput(const typename ProblemType::ProblemStepper
 
         file_merge << file_geom_head.rdbuf() << file_data.rdbuf() << file_geom_foot.rdbuf();
 
-        file_merge.close();
+        Utilities::close_written(file_merge, file_name_merge);
         file_geom_head.close();
         file_geom_foot.close();
         file_data.close();
@@ -254,7 +255,7 @@ void Writer<ProblemType>::InitializeMeshGeometryVTK(typename ProblemType::Proble
         file << cell[0] << '\n';
     }
 
-    file.close();
+    Utilities::close_written(file, this->vtk_file_name_geom);
 }
 
 template <typename ProblemType>
@@ -271,7 +272,7 @@ void Writer<ProblemType>::InitializeMeshGeometryVTU(typename ProblemType::Proble
     file << "\t<UnstructuredGrid>\n";
     file << "\t\t<Piece NumberOfPoints=\"" << points.size() << "\" NumberOfCells=\"" << cells.size() << "\">\n";
 
-    file.close();
+    Utilities::close_written(file, this->vtu_file_name_geom_head);
 
     file = std::ofstream(this->vtu_file_name_geom_foot);
 
@@ -344,7 +345,7 @@ void Writer<ProblemType>::InitializeMeshGeometryVTU(typename ProblemType::Proble
     file << "\t</UnstructuredGrid>\n";
     file << "</VTKFile>\n";
 
-    file.close();
+    Utilities::close_written(file, this->vtu_file_name_geom_foot);
 }
 
 #endif
diff --git a/source/utilities/check_stream.hpp b/source/utilities/check_stream.hpp
new file mode 100644
index 0000000..03462e2
--- /dev/null
+++ b/source/utilities/check_stream.hpp
@@ -0,0 +1,24 @@
+#ifndef CHECK_STREAM_HPP
+#define CHECK_STREAM_HPP
+
+#include <fstream>
+#include <stdexcept>
+#include <string>
+
+namespace Utilities {
+/**
+ * Close a file that was written, and make sure that everything reached it.
+ *
+ * @param file stream of the file
+ * @param file_name name of file
+ */
+inline void close_written(std::ofstream& file, const std::string& file_name) {
+    file.close();
+
+    if (!file) {
+        throw std::runtime_error("Fatal Error: writing to file " + file_name + " failed!\n");
+    }
+}
+}
+
+#endif
-- 
2.43.0


From bcfe95328701902b42d9aa1851aa50f7bf77473a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:04 +0000
Subject: [PATCH 07/27] fix: partitioner and mesh converter ignored failed
 writes of their output files

---
 partitioner/write_distributed_interfaces.cpp        | 5 +++--
 source/preprocessor/ADCIRC_reader/adcirc_format.cpp | 2 ++
 source/preprocessor/ADCIRC_reader/adcirc_format.hpp | 1 +
 source/preprocessor/input_parameters.hpp            | 2 ++
 source/preprocessor/mesh_metadata.cpp               | 2 +-
 source/preprocessor/mesh_metadata.hpp               | 1 +
 6 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/partitioner/write_distributed_interfaces.cpp b/partitioner/write_distributed_interfaces.cpp
index 4a74b7f..ab9fdb3 100644
--- a/partitioner/write_distributed_interfaces.cpp
+++ b/partitioner/write_distributed_interfaces.cpp
@@ -85,8 +85,8 @@ void write_distributed_edge_metadata(const std::string& file_name,
             std::string distributed_meta_filename = file_name;
             distributed_meta_filename =
                 distributed_meta_filename.substr(0, distributed_meta_filename.find_last_of("."));
-            std::ofstream file(distributed_meta_filename + '_' + std::to_string(loc_id) + '_' +
-                               std::to_string(sbmsh_id) + ".dbmd");
+            distributed_meta_filename += '_' + std::to_string(loc_id) + '_' + std::to_string(sbmsh_id) + ".dbmd";
+            std::ofstream file(distributed_meta_filename);
             for (auto& sf : shared_faces) {
                 uint locA   = sf.first.first % num_loc;
                 uint sbmshA = sf.first.first / num_loc;
@@ -100,6 +100,7 @@ void write_distributed_edge_metadata(const std::string& file_name,
                     }
                 }
             }
+            Utilities::close_written(file, distributed_meta_filename);
         }
     }
 }
diff --git a/source/preprocessor/ADCIRC_reader/adcirc_format.cpp b/source/preprocessor/ADCIRC_reader/adcirc_format.cpp
index 0f992dc..7626c4b 100644
--- a/source/preprocessor/ADCIRC_reader/adcirc_format.cpp
+++ b/source/preprocessor/ADCIRC_reader/adcirc_format.cpp
@@ -209,6 +209,8 @@ void AdcircFormat::write_to(const char* out_name) const {
             file << i << "\n";
         }
     }
+
+    Utilities::close_written(file, out_name);
 }
 
 SWE::BoundaryTypes AdcircFormat::get_ibtype(std::array<uint, 2>& node_pair) const {
diff --git a/source/preprocessor/ADCIRC_reader/adcirc_format.hpp b/source/preprocessor/ADCIRC_reader/adcirc_format.hpp
index 6f2fc79..1aaf803 100644
--- a/source/preprocessor/ADCIRC_reader/adcirc_format.hpp
+++ b/source/preprocessor/ADCIRC_reader/adcirc_format.hpp
@@ -3,6 +3,7 @@
 
 #include "general_definitions.hpp"
 #include "problem/SWE/swe_definitions.hpp"
+#include "utilities/check_stream.hpp"
 #include "utilities/file_exists.hpp"
 
 struct AdcircFormat {
diff --git a/source/preprocessor/input_parameters.hpp b/source/preprocessor/input_parameters.hpp
index d629893..cbad12f 100644
--- a/source/preprocessor/input_parameters.hpp
+++ b/source/preprocessor/input_parameters.hpp
@@ -389,6 +389,8 @@ void InputParameters<ProblemInput>::write_to(const std::string& output_filename)
            "############\n\n";
 
     ofs << output.c_str();
+
+    Utilities::close_written(ofs, output_filename);
 }
 
 template <>
diff --git a/source/preprocessor/mesh_metadata.cpp b/source/preprocessor/mesh_metadata.cpp
index 337a1dc..0db72c4 100644
--- a/source/preprocessor/mesh_metadata.cpp
+++ b/source/preprocessor/mesh_metadata.cpp
@@ -132,7 +132,7 @@ void MeshMetaData::write_to(const std::string& file) {
         ofs << nod.first << " " << nod.second << '\n';
     }
 
-    ofs.close();
+    Utilities::close_written(ofs, file);
 }
 
 AlignedVector<Point<3>> MeshMetaData::get_nodal_coordinates(uint elt_id) const {
diff --git a/source/preprocessor/mesh_metadata.hpp b/source/preprocessor/mesh_metadata.hpp
index 31d7420..9b646d4 100644
--- a/source/preprocessor/mesh_metadata.hpp
+++ b/source/preprocessor/mesh_metadata.hpp
@@ -3,6 +3,7 @@
 
 #include "general_definitions.hpp"
 #include "ADCIRC_reader/adcirc_format.hpp"
+#include "utilities/check_stream.hpp"
 #include "utilities/file_exists.hpp"
 
 struct NodeMetaData {
-- 
2.43.0


From ecea8fc1f0f108ba7ef0062ce08e9c5d8f977c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:09 +0000
Subject: [PATCH 08/27] fix: unreadable or truncated mesh, decomposition and
 boundary files were accepted

The readers never looked at the state of their streams, so a file that could
not be read or ended early yielded a wrong mesh or wrong boundary data.
---
 .../ADCIRC_reader/adcirc_format.cpp           |  7 +++-
 source/preprocessor/mesh_metadata.cpp         | 18 ++++++++-
 .../problem/SWE/problem_input/swe_inputs.cpp  | 38 ++++++++++++++-----
 .../problem/SWE/problem_parser/swe_parser.hpp |  8 ++++
 .../swe_pre_init_data.hpp                     |  5 +++
 5 files changed, 64 insertions(+), 12 deletions(-)

diff --git a/source/preprocessor/ADCIRC_reader/adcirc_format.cpp b/source/preprocessor/ADCIRC_reader/adcirc_format.cpp
index 7626c4b..ed0f884 100644
--- a/source/preprocessor/ADCIRC_reader/adcirc_format.cpp
+++ b/source/preprocessor/ADCIRC_reader/adcirc_format.cpp
@@ -1,11 +1,12 @@
 #include "adcirc_format.hpp"
 
-AdcircFormat::AdcircFormat(const std::string& fort14) {
+AdcircFormat::AdcircFormat(const std::string& fort14) try {
     if (!Utilities::file_exists(fort14)) {
         throw std::logic_error("Fatal Error: ADCIRC mesh file " + fort14 + " was not found!\n");
     }
 
     std::ifstream ifs(fort14);
+    ifs.exceptions(std::ifstream::failbit | std::ifstream::badbit);
 
     ifs >> this->name;
     ifs.ignore(1000, '\n');
@@ -120,6 +121,7 @@ AdcircFormat::AdcircFormat(const std::string& fort14) {
     }
 
     std::string line;
+    ifs.exceptions(std::ifstream::badbit);  // the file may end here
     std::getline(ifs, line);
 
     if (line.find_first_not_of(' ') != std::string::npos) {  // process generic boundaries if there are any, i.e. not a
@@ -127,6 +129,7 @@ AdcircFormat::AdcircFormat(const std::string& fort14) {
         std::stringstream stream;
         stream = std::stringstream(line);
 
+        ifs.exceptions(std::ifstream::failbit | std::ifstream::badbit);
         stream >> this->NGEN;
         stream.ignore(1000, '\n');
         ifs >> this->NNGN;
@@ -146,6 +149,8 @@ AdcircFormat::AdcircFormat(const std::string& fort14) {
     }
 
     ifs.close();
+} catch (const std::ifstream::failure&) {
+    throw std::runtime_error("Fatal Error: ADCIRC mesh file " + fort14 + " is unreadable or incomplete!\n");
 }
 
 void AdcircFormat::write_to(const char* out_name) const {
diff --git a/source/preprocessor/mesh_metadata.cpp b/source/preprocessor/mesh_metadata.cpp
index 0db72c4..6f3862d 100644
--- a/source/preprocessor/mesh_metadata.cpp
+++ b/source/preprocessor/mesh_metadata.cpp
@@ -84,12 +84,13 @@ MeshMetaData::MeshMetaData(const AdcircFormat& mesh_file) {
     }
 }
 
-MeshMetaData::MeshMetaData(const std::string& mesh_file) {
+MeshMetaData::MeshMetaData(const std::string& mesh_file) try {
     if (!Utilities::file_exists(mesh_file)) {
         throw std::logic_error("Fatal Error: meta mesh file " + mesh_file + " was not found!\n");
     }
 
     std::ifstream ifs(mesh_file);
+    ifs.exceptions(std::ifstream::failbit | std::ifstream::badbit);
 
     ifs >> this->mesh_name;
     ifs.ignore(1000, '\n');
@@ -115,6 +116,8 @@ MeshMetaData::MeshMetaData(const std::string& mesh_file) {
     }
 
     ifs.close();
+} catch (const std::ifstream::failure&) {
+    throw std::runtime_error("Fatal Error: meta mesh file " + mesh_file + " is unreadable or incomplete!\n");
 }
 
 void MeshMetaData::write_to(const std::string& file) {
@@ -156,6 +159,10 @@ DistributedBoundaryMetaData::DistributedBoundaryMetaData(const std::string& dbmd
 
     std::ifstream file(dbmd_file);
 
+    if (!file) {
+        throw std::runtime_error("Fatal Error: distributed boundary data file " + dbmd_file + " is unreadable!\n");
+    }
+
     std::string line;
 
     uint locality_A, locality_B, submesh_A, submesh_B, n_dboubdaries;
@@ -197,6 +204,11 @@ DistributedBoundaryMetaData::DistributedBoundaryMetaData(const std::string& dbmd
 
             file >> dboundary_meta_data;
 
+            if (!file) {
+                throw std::runtime_error("Fatal Error: distributed boundary data file " + dbmd_file +
+                                         " is unreadable or incomplete!\n");
+            }
+
             file.ignore(1000, '\n');
 
             if (locality_A == locality_id && submesh_A == submesh_id) {
@@ -220,4 +232,8 @@ DistributedBoundaryMetaData::DistributedBoundaryMetaData(const std::string& dbmd
 
         this->rank_boundary_data.push_back(std::move(rank_boundary));
     }
+
+    if (file.bad()) {
+        throw std::runtime_error("Fatal Error: distributed boundary data file " + dbmd_file + " is unreadable!\n");
+    }
 }
diff --git a/source/problem/SWE/problem_input/swe_inputs.cpp b/source/problem/SWE/problem_input/swe_inputs.cpp
index 52bd756..238325a 100644
--- a/source/problem/SWE/problem_input/swe_inputs.cpp
+++ b/source/problem/SWE/problem_input/swe_inputs.cpp
@@ -210,18 +210,32 @@ Inputs::Inputs(YAML::Node& swe_node) {
 }
 
 void Inputs::read_bcis(const std::string& bcis_file) {
-    /*if (!Utilities::file_exists(bcis_file)) {
-        throw std::logic_error("Fata Error: BC/ISP data file : " + bcis_file + " was not found!\n");
-    }*/
+    if (!Utilities::file_exists(bcis_file)) {  // there is none for most problems
+        return;
+    }
 
     std::ifstream file(bcis_file);
 
+    if (!file) {
+        throw std::runtime_error("Fatal Error: BC/ISP data file " + bcis_file + " is unreadable!\n");
+    }
+
     uint nnodes, btype;
 
     std::string line;
     std::stringstream stream;
 
+    auto next_line = [&file, &line, &bcis_file]() {
+        if (!std::getline(file, line)) {
+            throw std::runtime_error("Fatal Error: BC/ISP data file " + bcis_file + " is unreadable or incomplete!\n");
+        }
+    };
+
     while (std::getline(file, line)) {
+        if (line.find_first_not_of(" \t\r") == std::string::npos) {
+            continue;
+        }
+
         stream = std::stringstream(line);
         stream >> btype >> nnodes;
 
@@ -231,19 +245,19 @@ void Inputs::read_bcis(const std::string& bcis_file) {
             uint ncon, node_ID;
             double frequency, force_fact, eq_argument, amplitude, phase;
 
-            std::getline(file, line);
+            next_line();
 
             stream = std::stringstream(line);
             stream >> ncon;
 
             for (uint con = 0; con < ncon; ++con) {
-                std::getline(file, line);
+                next_line();
 
                 stream = std::stringstream(line);
                 stream >> frequency >> force_fact >> eq_argument;
 
                 for (uint node = 0; node < nnodes; ++node) {
-                    std::getline(file, line);
+                    next_line();
 
                     stream = std::stringstream(line);
                     stream >> node_ID >> amplitude >> phase;
@@ -266,19 +280,19 @@ void Inputs::read_bcis(const std::string& bcis_file) {
             uint ncon, node_ID;
             double frequency, force_fact, eq_argument, amplitude, phase;
 
-            std::getline(file, line);
+            next_line();
 
             stream = std::stringstream(line);
             stream >> ncon;
 
             for (uint con = 0; con < ncon; ++con) {
-                std::getline(file, line);
+                next_line();
 
                 stream = std::stringstream(line);
                 stream >> frequency >> force_fact >> eq_argument;
 
                 for (uint node = 0; node < nnodes; ++node) {
-                    std::getline(file, line);
+                    next_line();
 
                     stream = std::stringstream(line);
                     stream >> node_ID >> amplitude >> phase;
@@ -299,7 +313,7 @@ void Inputs::read_bcis(const std::string& bcis_file) {
             uint front_node, back_node;
 
             for (uint node = 0; node < nnodes; ++node) {
-                std::getline(file, line);
+                next_line();
 
                 LeveeInput levee;
 
@@ -310,6 +324,10 @@ void Inputs::read_bcis(const std::string& bcis_file) {
             }
         }
     }
+
+    if (file.bad()) {
+        throw std::runtime_error("Fatal Error: BC/ISP data file " + bcis_file + " is unreadable!\n");
+    }
 }
 
 YAML::Node Inputs::as_yaml_node() {
diff --git a/source/problem/SWE/problem_parser/swe_parser.hpp b/source/problem/SWE/problem_parser/swe_parser.hpp
index 31b6b55..3bf1ee3 100644
--- a/source/problem/SWE/problem_parser/swe_parser.hpp
+++ b/source/problem/SWE/problem_parser/swe_parser.hpp
@@ -113,6 +113,10 @@ void Parser::ParseMeteoInput(const StepperType& stepper) {
 
             this->node_meteo_data_step[step][node_id] = meteo_data;
         }
+
+        if (!meteo_file.is_open() || meteo_file.bad()) {
+            throw std::runtime_error("Fatal Error: meteo data file " + meteo_data_file_name + " is unreadable!\n");
+        }
     }
 
     if (this->node_meteo_data_step.find(step + this->meteo_parse_frequency) == this->node_meteo_data_step.end()) {
@@ -139,6 +143,10 @@ void Parser::ParseMeteoInput(const StepperType& stepper) {
 
             this->node_meteo_data_step[step + this->meteo_parse_frequency][node_id] = meteo_data;
         }
+
+        if (!meteo_file.is_open() || meteo_file.bad()) {
+            throw std::runtime_error("Fatal Error: meteo data file " + meteo_data_file_name + " is unreadable!\n");
+        }
     }
 }
 
diff --git a/source/problem/SWE/problem_preprocessor/swe_pre_init_data.hpp b/source/problem/SWE/problem_preprocessor/swe_pre_init_data.hpp
index 3f3eb00..c7b56e3 100644
--- a/source/problem/SWE/problem_preprocessor/swe_pre_init_data.hpp
+++ b/source/problem/SWE/problem_preprocessor/swe_pre_init_data.hpp
@@ -181,6 +181,11 @@ void initialize_data_serial(MeshType& mesh, const ProblemSpecificInputType& prob
             node_manning_n[node_ID] = manning_n;
         }
 
+        if (!manning_file.is_open() || manning_file.bad()) {
+            throw std::runtime_error("Fatal Error: manning factor data file " +
+                                     problem_specific_input.bottom_friction.manning_data_file + " is unreadable!\n");
+        }
+
         mesh.CallForEachElement([&node_manning_n](auto& elt) {
             const std::vector<uint>& node_ID = elt.GetNodeID();
             for (uint node = 0; node < elt.data.get_nnode(); ++node) {
-- 
2.43.0


From 1a2a46188dc98fe376cbb97165fd9ba9cf2e8b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:21 +0000
Subject: [PATCH 09/27] fix: LLF flux left the exterior state out of the
 spherical correction

The flux through a face depended on which of its two elements was taken as the
interior one, so with a spherical projection mass was not conserved and the
solution changed with the decomposition.
---
 .../numerical_fluxes/rkdg_swe_LLF_flux.hpp                  | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/problem/SWE/discretization_RKDG/numerical_fluxes/rkdg_swe_LLF_flux.hpp b/source/problem/SWE/discretization_RKDG/numerical_fluxes/rkdg_swe_LLF_flux.hpp
index 9b577c6..619e205 100644
--- a/source/problem/SWE/discretization_RKDG/numerical_fluxes/rkdg_swe_LLF_flux.hpp
+++ b/source/problem/SWE/discretization_RKDG/numerical_fluxes/rkdg_swe_LLF_flux.hpp
@@ -52,9 +52,9 @@ void LLF_flux(const double gravity,
     double uvh_ex = u_ex * q_ex[SWE::Variables::qy];
     double pe_ex  = gravity * (std::pow(q_ex[SWE::Variables::ze], 2) / 2 + q_ex[SWE::Variables::ze] * bath);
 
-    Fn_ex[SWE::Variables::ze] = q_ex[SWE::Variables::qx] * nx + q_ex[SWE::Variables::qy] * ny;
-    Fn_ex[SWE::Variables::qx] = (uuh_ex + pe_ex) * nx + uvh_ex * ny;
-    Fn_ex[SWE::Variables::qy] = uvh_ex * nx + (vvh_ex + pe_ex) * ny;
+    Fn_ex[SWE::Variables::ze] = sp * q_ex[SWE::Variables::qx] * nx + q_ex[SWE::Variables::qy] * ny;
+    Fn_ex[SWE::Variables::qx] = sp * (uuh_ex + pe_ex) * nx + uvh_ex * ny;
+    Fn_ex[SWE::Variables::qy] = sp * uvh_ex * nx + (vvh_ex + pe_ex) * ny;
 
     F_hat = 0.5 * (Fn_in + Fn_ex + max_eigenvalue * (q_in - q_ex));
 }
-- 
2.43.0


From 8f3f43b824cee15edb6dc31e0afe765429b84706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:04 +0000
Subject: [PATCH 10/27] fix: implicit HDG bottom friction divided by zero in
 still water

---
 .../kernels_processor/ihdg_swe_proc_source.hpp              | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_source.hpp b/source/problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_source.hpp
index a999ba1..647601c 100644
--- a/source/problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_source.hpp
+++ b/source/problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_source.hpp
@@ -47,8 +47,10 @@ void Problem::local_source_kernel(const ProblemStepperType& stepper, ElementType
                 }
             }
 
-            double bottom_friction_stress = Cf * std::hypot(u, v) / internal.aux_at_gp(SWE::Auxiliaries::h, gp);
-            double C                      = Cf / (std::hypot(u, v) * internal.aux_at_gp(SWE::Auxiliaries::h, gp));
+            double speed                  = std::hypot(u, v);
+            double bottom_friction_stress = Cf * speed / internal.aux_at_gp(SWE::Auxiliaries::h, gp);
+            // in still water the terms with C vanish as the velocity does
+            double C = speed > 0.0 ? Cf / (speed * internal.aux_at_gp(SWE::Auxiliaries::h, gp)) : 0.0;
 
             internal.dsource_dq_at_gp(JacobianVariables::qx_ze, gp) -=
                 -2.0 * bottom_friction_stress * u +
-- 
2.43.0


From 0e75128e2e10e2e1722507abf81748d4739f4b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:28 +0000
Subject: [PATCH 11/27] fix: boundary data with an incomplete record was used
 as far as it went

---
 source/problem/SWE/problem_input/swe_inputs.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/source/problem/SWE/problem_input/swe_inputs.cpp b/source/problem/SWE/problem_input/swe_inputs.cpp
index 238325a..6bb61fb 100644
--- a/source/problem/SWE/problem_input/swe_inputs.cpp
+++ b/source/problem/SWE/problem_input/swe_inputs.cpp
@@ -231,6 +231,13 @@ void Inputs::read_bcis(const std::string& bcis_file) {
         }
     };
 
+    auto check_record = [&stream, &line, &bcis_file]() {
+        if (!stream) {
+            throw std::runtime_error("Fatal Error: BC/ISP data file " + bcis_file + " has an incomplete record: " +
+                                     line + "\n");
+        }
+    };
+
     while (std::getline(file, line)) {
         if (line.find_first_not_of(" \t\r") == std::string::npos) {
             continue;
@@ -238,6 +245,7 @@ void Inputs::read_bcis(const std::string& bcis_file) {
 
         stream = std::stringstream(line);
         stream >> btype >> nnodes;
+        check_record();
 
         if (btype == SWE::BoundaryTypes::tide) {
             TideBoundary tide_bound;
@@ -249,18 +257,21 @@ void Inputs::read_bcis(const std::string& bcis_file) {
 
             stream = std::stringstream(line);
             stream >> ncon;
+            check_record();
 
             for (uint con = 0; con < ncon; ++con) {
                 next_line();
 
                 stream = std::stringstream(line);
                 stream >> frequency >> force_fact >> eq_argument;
+                check_record();
 
                 for (uint node = 0; node < nnodes; ++node) {
                     next_line();
 
                     stream = std::stringstream(line);
                     stream >> node_ID >> amplitude >> phase;
+                    check_record();
 
                     TideNode& tide_node = tide_bound.tide_nodes[node_ID];
 
@@ -284,18 +295,21 @@ void Inputs::read_bcis(const std::string& bcis_file) {
 
             stream = std::stringstream(line);
             stream >> ncon;
+            check_record();
 
             for (uint con = 0; con < ncon; ++con) {
                 next_line();
 
                 stream = std::stringstream(line);
                 stream >> frequency >> force_fact >> eq_argument;
+                check_record();
 
                 for (uint node = 0; node < nnodes; ++node) {
                     next_line();
 
                     stream = std::stringstream(line);
                     stream >> node_ID >> amplitude >> phase;
+                    check_record();
 
                     FlowNode& flow_node = flow_bound.flow_nodes[node_ID];
 
@@ -319,6 +333,7 @@ void Inputs::read_bcis(const std::string& bcis_file) {
 
                 stream = std::stringstream(line);
                 stream >> front_node >> back_node >> levee.H_barrier >> levee.C_subcritical >> levee.C_supercritical;
+                check_record();
 
                 this->levee_is_data[std::pair<uint, uint>{front_node, back_node}] = levee;
             }
-- 
2.43.0


From 6d3c8dd290a48edbd8bb906bfd373a87aba3948b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:28 +0000
Subject: [PATCH 12/27] fix: nodes missing from friction or meteo data were
 taken as zero or read out of bounds

---
 .../problem/SWE/problem_parser/swe_parser.hpp | 21 +++++++++++--------
 .../swe_pre_init_data.hpp                     |  7 ++++++-
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/source/problem/SWE/problem_parser/swe_parser.hpp b/source/problem/SWE/problem_parser/swe_parser.hpp
index 3bf1ee3..4ef78ae 100644
--- a/source/problem/SWE/problem_parser/swe_parser.hpp
+++ b/source/problem/SWE/problem_parser/swe_parser.hpp
@@ -162,18 +162,21 @@ void Parser::InterpolateMeteoData(const StepperType& stepper) {
 
     double interp_factor = (stepper.GetTimeAtCurrentStage() - t_start) / (t_end - t_start);
 
+    const auto& data_start = this->node_meteo_data_step[step_start];
+    const auto& data_end   = this->node_meteo_data_step[step_end];
+
     for (auto& it : this->node_meteo_data_interp) {
-        it.second[0] = this->node_meteo_data_step[step_start][it.first][0] +
-                       interp_factor * (this->node_meteo_data_step[step_end][it.first][0] -
-                                        this->node_meteo_data_step[step_start][it.first][0]);
+        const auto node_start = data_start.find(it.first);
+        const auto node_end   = data_end.find(it.first);
 
-        it.second[1] = this->node_meteo_data_step[step_start][it.first][1] +
-                       interp_factor * (this->node_meteo_data_step[step_end][it.first][1] -
-                                        this->node_meteo_data_step[step_start][it.first][1]);
+        if (node_start == data_start.end() || node_end == data_end.end()) {
+            throw std::runtime_error("Fatal Error: meteo data is missing for node " + std::to_string(it.first) + "!\n");
+        }
 
-        it.second[2] = this->node_meteo_data_step[step_start][it.first][2] +
-                       interp_factor * (this->node_meteo_data_step[step_end][it.first][2] -
-                                        this->node_meteo_data_step[step_start][it.first][2]);
+        for (uint i = 0; i < 3; ++i) {
+            it.second[i] =
+                node_start->second[i] + interp_factor * (node_end->second[i] - node_start->second[i]);
+        }
     }
 }
 }
diff --git a/source/problem/SWE/problem_preprocessor/swe_pre_init_data.hpp b/source/problem/SWE/problem_preprocessor/swe_pre_init_data.hpp
index c7b56e3..1410cd7 100644
--- a/source/problem/SWE/problem_preprocessor/swe_pre_init_data.hpp
+++ b/source/problem/SWE/problem_preprocessor/swe_pre_init_data.hpp
@@ -189,7 +189,12 @@ void initialize_data_serial(MeshType& mesh, const ProblemSpecificInputType& prob
         mesh.CallForEachElement([&node_manning_n](auto& elt) {
             const std::vector<uint>& node_ID = elt.GetNodeID();
             for (uint node = 0; node < elt.data.get_nnode(); ++node) {
-                elt.data.source.manning_n[node] = node_manning_n[node_ID[node]];
+                const auto it = node_manning_n.find(node_ID[node]);
+                if (it == node_manning_n.end()) {
+                    throw std::runtime_error("Fatal Error: manning factor is missing for node " +
+                                             std::to_string(node_ID[node]) + "!\n");
+                }
+                elt.data.source.manning_n[node] = it->second;
             }
 
             elt.data.source.manning = true;
-- 
2.43.0


From 938dfeb6ea2f811fb98f1281ed328ff8cb873a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:28 +0000
Subject: [PATCH 13/27] fix: output lost while merging VTK and VTU files went
 unnoticed

---
 source/simulation/writer.hpp      |  7 +++++--
 source/utilities/check_stream.hpp | 15 +++++++++++++++
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/source/simulation/writer.hpp b/source/simulation/writer.hpp
index 0d92bdb..f5149c3 100644
--- a/source/simulation/writer.hpp
+++ b/source/simulation/writer.hpp
@@ -144,7 +144,8 @@ void Writer<ProblemType>::WriteOutput(const typename ProblemType::ProblemStepper
         std::string file_name_merge = this->output_path + mesh.GetMeshName() + "_data_" + std::to_string(step) + ".vtk";
         std::ofstream file_merge(file_name_merge, std::ios_base::binary);
 
-        file_merge << file_geom.rdbuf() << file_data.rdbuf();
+        Utilities::copy_rest(file_merge, file_geom, file_name_merge);
+        Utilities::copy_rest(file_merge, file_data, file_name_merge);
 
         Utilities::close_written(file_merge, file_name_merge);
         file_geom.close();
@@ -180,7 +181,9 @@ void Writer<ProblemType>::WriteOutput(const typename ProblemType::ProblemStepper
         std::string file_name_merge = this->output_path + mesh.GetMeshName() + "_data_" + std::to_string(step) + ".vtu";
         std::ofstream file_merge(file_name_merge, std::ios_base::binary);
 
-        file_merge << file_geom_head.rdbuf() << file_data.rdbuf() << file_geom_foot.rdbuf();
+        Utilities::copy_rest(file_merge, file_geom_head, file_name_merge);
+        Utilities::copy_rest(file_merge, file_data, file_name_merge);
+        Utilities::copy_rest(file_merge, file_geom_foot, file_name_merge);
 
         Utilities::close_written(file_merge, file_name_merge);
         file_geom_head.close();
diff --git a/source/utilities/check_stream.hpp b/source/utilities/check_stream.hpp
index 03462e2..94d5c59 100644
--- a/source/utilities/check_stream.hpp
+++ b/source/utilities/check_stream.hpp
@@ -19,6 +19,21 @@ inline void close_written(std::ofstream& file, const std::string& file_name) {
         throw std::runtime_error("Fatal Error: writing to file " + file_name + " failed!\n");
     }
 }
+
+/**
+ * Copy the rest of a file into another one, and make sure that nothing is left out.
+ *
+ * @param to stream of the file written
+ * @param from stream of the file read
+ * @param file_name name of the file written
+ */
+inline void copy_rest(std::ofstream& to, std::ifstream& from, const std::string& file_name) {
+    to << from.rdbuf();
+
+    if (!to || from.peek() != std::ifstream::traits_type::eof() || from.bad()) {
+        throw std::runtime_error("Fatal Error: copying into file " + file_name + " failed!\n");
+    }
+}
 }
 
 #endif
-- 
2.43.0


From 848d81e96dfdd37318df5a819eea540aa07d8d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:09 +0000
Subject: [PATCH 14/27] fix: rounding added a step to runs and output intervals
 that are multiples of the time step

---
 source/preprocessor/input_parameters.hpp      |  7 +++---
 .../problem/SWE/problem_parser/swe_parser.hpp |  3 ++-
 source/simulation/ompi/simulation_ompi.hpp    |  3 ++-
 source/simulation/serial/simulation.hpp       |  3 ++-
 source/utilities/count_steps.hpp              | 24 +++++++++++++++++++
 5 files changed, 34 insertions(+), 6 deletions(-)
 create mode 100644 source/utilities/count_steps.hpp

diff --git a/source/preprocessor/input_parameters.hpp b/source/preprocessor/input_parameters.hpp
index cbad12f..e057b4b 100644
--- a/source/preprocessor/input_parameters.hpp
+++ b/source/preprocessor/input_parameters.hpp
@@ -2,6 +2,7 @@
 #define INPUT_PARAMETERS_HPP
 
 #include "general_definitions.hpp"
+#include "utilities/count_steps.hpp"
 #include <yaml-cpp/yaml.h>
 
 #include "ADCIRC_reader/adcirc_format.hpp"
@@ -227,7 +228,7 @@ InputParameters<ProblemInput>::InputParameters(const std::string& input_string)
                 this->writer_input.writing_vtk_output   = true;
                 this->writer_input.vtk_output_frequency = out_node["vtk"]["frequency"].as<double>();
                 this->writer_input.vtk_output_freq_step =
-                    (uint)std::ceil(this->writer_input.vtk_output_frequency / this->stepper_input.dt);
+                    Utilities::count_steps(this->writer_input.vtk_output_frequency, this->stepper_input.dt);
             } else {
                 std::string err_msg("Error: VTK YAML node is malformatted\n");
                 throw std::logic_error(err_msg);
@@ -239,7 +240,7 @@ InputParameters<ProblemInput>::InputParameters(const std::string& input_string)
                 this->writer_input.writing_vtu_output   = true;
                 this->writer_input.vtu_output_frequency = out_node["vtu"]["frequency"].as<double>();
                 this->writer_input.vtu_output_freq_step =
-                    (uint)std::ceil(this->writer_input.vtu_output_frequency / this->stepper_input.dt);
+                    Utilities::count_steps(this->writer_input.vtu_output_frequency, this->stepper_input.dt);
             } else {
                 std::string err_msg("Error: VTU YAML node is malformatted\n");
                 throw std::logic_error(err_msg);
@@ -251,7 +252,7 @@ InputParameters<ProblemInput>::InputParameters(const std::string& input_string)
                 this->writer_input.writing_modal_output   = true;
                 this->writer_input.modal_output_frequency = out_node["modal"]["frequency"].as<double>();
                 this->writer_input.modal_output_freq_step =
-                    (uint)std::ceil(this->writer_input.modal_output_frequency / this->stepper_input.dt);
+                    Utilities::count_steps(this->writer_input.modal_output_frequency, this->stepper_input.dt);
             } else {
                 std::string err_msg("Error: Modal YAML node is malformatted\n");
                 throw std::logic_error(err_msg);
diff --git a/source/problem/SWE/problem_parser/swe_parser.hpp b/source/problem/SWE/problem_parser/swe_parser.hpp
index 4ef78ae..c41a79b 100644
--- a/source/problem/SWE/problem_parser/swe_parser.hpp
+++ b/source/problem/SWE/problem_parser/swe_parser.hpp
@@ -2,6 +2,7 @@
 #define SWE_PARSER_HPP
 
 #include "utilities/file_exists.hpp"
+#include "utilities/count_steps.hpp"
 #include "preprocessor/input_parameters.hpp"
 
 namespace SWE {
@@ -39,7 +40,7 @@ Parser::Parser(const InputParameters<ProblemSpecificInputType>& input) {
         this->parsing_input = true;
 
         this->meteo_parse_frequency =
-            (uint)std::ceil(input.problem_input.meteo_forcing.frequency / input.stepper_input.dt);
+            Utilities::count_steps(input.problem_input.meteo_forcing.frequency, input.stepper_input.dt);
         this->meteo_data_file = input.problem_input.meteo_forcing.meteo_data_file;
     }
 }
diff --git a/source/simulation/ompi/simulation_ompi.hpp b/source/simulation/ompi/simulation_ompi.hpp
index c5bd340..201fba8 100644
--- a/source/simulation/ompi/simulation_ompi.hpp
+++ b/source/simulation/ompi/simulation_ompi.hpp
@@ -4,6 +4,7 @@
 #include <omp.h>
 
 #include "general_definitions.hpp"
+#include "utilities/count_steps.hpp"
 #include "preprocessor/input_parameters.hpp"
 #include "utilities/file_exists.hpp"
 #include "sim_unit_ompi.hpp"
@@ -34,7 +35,7 @@ OMPISimulation<ProblemType>::OMPISimulation(const std::string& input_string) {
 
     InputParameters<typename ProblemType::ProblemInputType> input(input_string);
 
-    this->n_steps = (uint)std::ceil(input.stepper_input.run_time / input.stepper_input.dt);
+    this->n_steps = Utilities::count_steps(input.stepper_input.run_time, input.stepper_input.dt);
 
     this->stepper = typename ProblemType::ProblemStepperType(input.stepper_input);
 
diff --git a/source/simulation/serial/simulation.hpp b/source/simulation/serial/simulation.hpp
index 124e58e..e32a1d0 100644
--- a/source/simulation/serial/simulation.hpp
+++ b/source/simulation/serial/simulation.hpp
@@ -2,6 +2,7 @@
 #define SIMULATION_HPP
 
 #include "general_definitions.hpp"
+#include "utilities/count_steps.hpp"
 #include "preprocessor/input_parameters.hpp"
 
 #include "simulation/serial/simulation_base.hpp"
@@ -44,7 +45,7 @@ Simulation<ProblemType>::Simulation(const std::string& input_string) {
 
     ProblemType::preprocess_mesh_data(input);
 
-    this->n_steps = (uint)std::ceil(input.stepper_input.run_time / input.stepper_input.dt);
+    this->n_steps = Utilities::count_steps(input.stepper_input.run_time, input.stepper_input.dt);
 
     this->discretization.mesh = typename ProblemType::ProblemMeshType(input.polynomial_order);
     this->stepper             = typename ProblemType::ProblemStepperType(input.stepper_input);
diff --git a/source/utilities/count_steps.hpp b/source/utilities/count_steps.hpp
new file mode 100644
index 0000000..7120c67
--- /dev/null
+++ b/source/utilities/count_steps.hpp
@@ -0,0 +1,24 @@
+#ifndef COUNT_STEPS_HPP
+#define COUNT_STEPS_HPP
+
+#include <cmath>
+
+#include "general_definitions.hpp"
+
+namespace Utilities {
+/**
+ * Number of time steps that cover an interval.
+ * An interval that is a multiple of the step up to rounding takes no extra step.
+ *
+ * @param interval length of interval
+ * @param dt length of step
+ */
+inline uint count_steps(const double interval, const double dt) {
+    const double ratio   = interval / dt;
+    const double nearest = std::round(ratio);
+
+    return (uint)(std::abs(ratio - nearest) <= 1.0e-12 * nearest ? nearest : std::ceil(ratio));
+}
+}
+
+#endif
-- 
2.43.0


From 7291560b57ee6698f3831228e837101b2f2f5073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:30 +0000
Subject: [PATCH 15/27] fix: explicit HDG computed open and land boundary
 fluxes of dry elements from unset memory

---
 .../kernels_processor/ehdg_swe_proc_ompi_step.hpp              | 3 ++-
 .../kernels_processor/ehdg_swe_proc_serial_step.hpp            | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/problem/SWE/discretization_EHDG/kernels_processor/ehdg_swe_proc_ompi_step.hpp b/source/problem/SWE/discretization_EHDG/kernels_processor/ehdg_swe_proc_ompi_step.hpp
index 265da1c..0312865 100644
--- a/source/problem/SWE/discretization_EHDG/kernels_processor/ehdg_swe_proc_ompi_step.hpp
+++ b/source/problem/SWE/discretization_EHDG/kernels_processor/ehdg_swe_proc_ompi_step.hpp
@@ -66,7 +66,8 @@ void Problem::stage_ompi(std::vector<std::unique_ptr<OMPISimUnitType<ProblemType
             [](auto& edge_int) { edge_int.interface.specialization.ComputeNumericalFlux(edge_int); });
 
         sim_units[su_id]->discretization.mesh_skeleton.CallForEachEdgeBoundary([&stepper](auto& edge_bound) {
-            edge_bound.boundary.boundary_condition.ComputeNumericalFlux(stepper, edge_bound);
+            if (edge_bound.boundary.data.wet_dry_state.wet)
+                edge_bound.boundary.boundary_condition.ComputeNumericalFlux(stepper, edge_bound);
         });
 
         /* Global Pre Receive Step */
diff --git a/source/problem/SWE/discretization_EHDG/kernels_processor/ehdg_swe_proc_serial_step.hpp b/source/problem/SWE/discretization_EHDG/kernels_processor/ehdg_swe_proc_serial_step.hpp
index 724fc4b..a6f4f03 100644
--- a/source/problem/SWE/discretization_EHDG/kernels_processor/ehdg_swe_proc_serial_step.hpp
+++ b/source/problem/SWE/discretization_EHDG/kernels_processor/ehdg_swe_proc_serial_step.hpp
@@ -39,7 +39,8 @@ void Problem::stage_serial(HDGDiscretization<ProblemType>& discretization,
         [](auto& edge_int) { edge_int.interface.specialization.ComputeNumericalFlux(edge_int); });
 
     discretization.mesh_skeleton.CallForEachEdgeBoundary([&stepper](auto& edge_bound) {
-        edge_bound.boundary.boundary_condition.ComputeNumericalFlux(stepper, edge_bound);
+        if (edge_bound.boundary.data.wet_dry_state.wet)
+            edge_bound.boundary.boundary_condition.ComputeNumericalFlux(stepper, edge_bound);
     });
     /* Global Step */
 
-- 
2.43.0


From 505b53a96cb5d03c06b901a649fdd2c887470963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:03 +0000
Subject: [PATCH 16/27] fix: Green-Naghdi with wetting and drying read solution
 blocks dry edges do not have

---
 .../ehdg_gn_proc_ompi_sol_glob_prob.hpp       | 22 ++++++++++---------
 .../ehdg_gn_proc_serial_sol_glob_prob.hpp     | 14 +++++++-----
 2 files changed, 21 insertions(+), 15 deletions(-)

diff --git a/source/problem/Green-Naghdi/discretization_EHDG/kernels_processor/ehdg_gn_proc_ompi_sol_glob_prob.hpp b/source/problem/Green-Naghdi/discretization_EHDG/kernels_processor/ehdg_gn_proc_ompi_sol_glob_prob.hpp
index 45d893a..b558799 100644
--- a/source/problem/Green-Naghdi/discretization_EHDG/kernels_processor/ehdg_gn_proc_ompi_sol_glob_prob.hpp
+++ b/source/problem/Green-Naghdi/discretization_EHDG/kernels_processor/ehdg_gn_proc_ompi_sol_glob_prob.hpp
@@ -334,14 +334,16 @@ void Problem::ompi_solve_global_dc_problem(std::vector<std::unique_ptr<OMPISimUn
             auto& boundary_ex   = edge_int.interface.data_ex.boundary[edge_int.interface.bound_id_ex];
 
             const uint n_global_dofs = edge_int.edge_data.get_ndof() * GN::n_dimensions;
-            const auto w1_hat =
-                subvector(global_data.dc_solution, edge_internal.dc_local_dof_indx * n_global_dofs, n_global_dofs);
             if (edge_int.interface.data_in.wet_dry_state.wet /*&&
                 edge_int.interface.data_in.source.dispersive_correction*/)
-                internal_in.w1_rhs -= boundary_in.w1_w1_hat * w1_hat;
+                internal_in.w1_rhs -=
+                    boundary_in.w1_w1_hat *
+                    subvector(global_data.dc_solution, edge_internal.dc_local_dof_indx * n_global_dofs, n_global_dofs);
             if (edge_int.interface.data_ex.wet_dry_state.wet /*&&
                 edge_int.interface.data_ex.source.dispersive_correction*/)
-                internal_ex.w1_rhs -= boundary_ex.w1_w1_hat * w1_hat;
+                internal_ex.w1_rhs -=
+                    boundary_ex.w1_w1_hat *
+                    subvector(global_data.dc_solution, edge_internal.dc_local_dof_indx * n_global_dofs, n_global_dofs);
         });
 
         sim_units[su_id]->discretization.mesh_skeleton.CallForEachEdgeBoundary([&global_data](auto& edge_bound) {
@@ -350,11 +352,11 @@ void Problem::ompi_solve_global_dc_problem(std::vector<std::unique_ptr<OMPISimUn
             auto& boundary      = edge_bound.boundary.data.boundary[edge_bound.boundary.bound_id];
 
             const uint n_global_dofs = edge_bound.edge_data.get_ndof() * GN::n_dimensions;
-            const auto w1_hat =
-                subvector(global_data.dc_solution, edge_internal.dc_local_dof_indx * n_global_dofs, n_global_dofs);
             if (edge_bound.boundary.data.wet_dry_state.wet /*&&
                 edge_bound.boundary.data.source.dispersive_correction*/)
-                internal.w1_rhs -= boundary.w1_w1_hat * w1_hat;
+                internal.w1_rhs -=
+                    boundary.w1_w1_hat *
+                    subvector(global_data.dc_solution, edge_internal.dc_local_dof_indx * n_global_dofs, n_global_dofs);
         });
 
         sim_units[su_id]->discretization.mesh_skeleton.CallForEachEdgeDistributed([&global_data](auto& edge_dbound) {
@@ -363,11 +365,11 @@ void Problem::ompi_solve_global_dc_problem(std::vector<std::unique_ptr<OMPISimUn
             auto& boundary      = edge_dbound.boundary.data.boundary[edge_dbound.boundary.bound_id];
 
             const uint n_global_dofs = edge_dbound.edge_data.get_ndof() * GN::n_dimensions;
-            const auto w1_hat =
-                subvector(global_data.dc_solution, edge_internal.dc_local_dof_indx * n_global_dofs, n_global_dofs);
             if (edge_dbound.boundary.data.wet_dry_state.wet /*&&
                 edge_dbound.boundary.data.source.dispersive_correction*/)
-                internal.w1_rhs -= boundary.w1_w1_hat * w1_hat;
+                internal.w1_rhs -=
+                    boundary.w1_w1_hat *
+                    subvector(global_data.dc_solution, edge_internal.dc_local_dof_indx * n_global_dofs, n_global_dofs);
         });
 
         sim_units[su_id]->discretization.mesh.CallForEachElement([&stepper](auto& elt) {
diff --git a/source/problem/Green-Naghdi/discretization_EHDG/kernels_processor/ehdg_gn_proc_serial_sol_glob_prob.hpp b/source/problem/Green-Naghdi/discretization_EHDG/kernels_processor/ehdg_gn_proc_serial_sol_glob_prob.hpp
index dd220c1..e6652c4 100644
--- a/source/problem/Green-Naghdi/discretization_EHDG/kernels_processor/ehdg_gn_proc_serial_sol_glob_prob.hpp
+++ b/source/problem/Green-Naghdi/discretization_EHDG/kernels_processor/ehdg_gn_proc_serial_sol_glob_prob.hpp
@@ -192,11 +192,14 @@ void Problem::serial_solve_global_dc_problem(ProblemDiscretizationType& discreti
         auto& boundary_ex   = edge_int.interface.data_ex.boundary[edge_int.interface.bound_id_ex];
 
         const uint n_global_dofs = edge_int.edge_data.get_ndof() * GN::n_dimensions;
-        const auto w1_hat = subvector(w1_hat_rhs, edge_internal.dc_global_dof_indx * n_global_dofs, n_global_dofs);
         if (edge_int.interface.data_in.wet_dry_state.wet /*&& edge_int.interface.data_in.source.dispersive_correction*/)
-            internal_in.w1_rhs -= boundary_in.w1_w1_hat * w1_hat;
+            internal_in.w1_rhs -=
+                boundary_in.w1_w1_hat *
+                subvector(w1_hat_rhs, edge_internal.dc_global_dof_indx * n_global_dofs, n_global_dofs);
         if (edge_int.interface.data_ex.wet_dry_state.wet /*&& edge_int.interface.data_ex.source.dispersive_correction*/)
-            internal_ex.w1_rhs -= boundary_ex.w1_w1_hat * w1_hat;
+            internal_ex.w1_rhs -=
+                boundary_ex.w1_w1_hat *
+                subvector(w1_hat_rhs, edge_internal.dc_global_dof_indx * n_global_dofs, n_global_dofs);
     });
 
     discretization.mesh_skeleton.CallForEachEdgeBoundary([&w1_hat_rhs](auto& edge_bound) {
@@ -205,9 +208,10 @@ void Problem::serial_solve_global_dc_problem(ProblemDiscretizationType& discreti
         auto& boundary      = edge_bound.boundary.data.boundary[edge_bound.boundary.bound_id];
 
         const uint n_global_dofs = edge_bound.edge_data.get_ndof() * GN::n_dimensions;
-        const auto w1_hat = subvector(w1_hat_rhs, edge_internal.dc_global_dof_indx * n_global_dofs, n_global_dofs);
         if (edge_bound.boundary.data.wet_dry_state.wet /*&& edge_bound.boundary.data.source.dispersive_correction*/)
-            internal.w1_rhs -= boundary.w1_w1_hat * w1_hat;
+            internal.w1_rhs -=
+                boundary.w1_w1_hat *
+                subvector(w1_hat_rhs, edge_internal.dc_global_dof_indx * n_global_dofs, n_global_dofs);
     });
 
     discretization.mesh.CallForEachElement([&w1_hat_rhs, &stepper](auto& elt) {
-- 
2.43.0


From ef508887ad327d364ece5773298b0f15dac956cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:03 +0000
Subject: [PATCH 17/27] fix: serial Green-Naghdi run factorized an empty system
 once all elements were dry

---
 .../kernels_processor/ehdg_gn_proc_serial_sol_glob_prob.hpp   | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/problem/Green-Naghdi/discretization_EHDG/kernels_processor/ehdg_gn_proc_serial_sol_glob_prob.hpp b/source/problem/Green-Naghdi/discretization_EHDG/kernels_processor/ehdg_gn_proc_serial_sol_glob_prob.hpp
index e6652c4..2a384ad 100644
--- a/source/problem/Green-Naghdi/discretization_EHDG/kernels_processor/ehdg_gn_proc_serial_sol_glob_prob.hpp
+++ b/source/problem/Green-Naghdi/discretization_EHDG/kernels_processor/ehdg_gn_proc_serial_sol_glob_prob.hpp
@@ -182,7 +182,9 @@ void Problem::serial_solve_global_dc_problem(ProblemDiscretizationType& discreti
 
     sparse_w1_hat_w1_hat.get_sparse_matrix(w1_hat_w1_hat);
 
-    solve_sle(w1_hat_w1_hat, w1_hat_rhs);
+    // there are no unknowns when all elements are dry
+    if (w1_hat_rhs.size() > 0)
+        solve_sle(w1_hat_w1_hat, w1_hat_rhs);
 
     discretization.mesh_skeleton.CallForEachEdgeInterface([&w1_hat_rhs](auto& edge_int) {
         auto& edge_internal = edge_int.edge_data.edge_internal;
-- 
2.43.0


From 16f2ba54edf33ec09a717c4821af62cd52b70b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:03 +0000
Subject: [PATCH 18/27] fix: a locality that holds no submeshes did not know of
 wetting and drying

---
 source/simulation/ompi/simulation_ompi.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/simulation/ompi/simulation_ompi.hpp b/source/simulation/ompi/simulation_ompi.hpp
index 201fba8..38f1a53 100644
--- a/source/simulation/ompi/simulation_ompi.hpp
+++ b/source/simulation/ompi/simulation_ompi.hpp
@@ -35,6 +35,9 @@ OMPISimulation<ProblemType>::OMPISimulation(const std::string& input_string) {
 
     InputParameters<typename ProblemType::ProblemInputType> input(input_string);
 
+    // a locality may hold no submeshes, yet it takes part in the collective operations the parameters call for
+    ProblemType::initialize_problem_parameters(input.problem_input);
+
     this->n_steps = Utilities::count_steps(input.stepper_input.run_time, input.stepper_input.dt);
 
     this->stepper = typename ProblemType::ProblemStepperType(input.stepper_input);
-- 
2.43.0


From 95fd3048117524ed7c2cbc7847d2f74e67c12ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:13 +0000
Subject: [PATCH 19/27] fix: let the troubled area of the slope limiter spread
 across subdomain borders

The area around troubled elements in which the Green-Naghdi correction is left out
grew only within each submesh, and a wet element next to a dry one in another submesh
measured its jump in depth against zero.
---
 .../swe_data_slope_limit.hpp                  |  8 ++-
 .../problem_slope_limiter/swe_CS_sl_ompi.hpp  | 39 +++++++++++++
 .../swe_CS_sl_serial.hpp                      |  5 ++
 .../swe_CS_slope_limiter.hpp                  | 13 +++--
 .../swe_trouble_check.hpp                     | 55 ++++++++++++++-----
 5 files changed, 96 insertions(+), 24 deletions(-)

diff --git a/source/problem/SWE/problem_data_structure/swe_data_slope_limit.hpp b/source/problem/SWE/problem_data_structure/swe_data_slope_limit.hpp
index 406885d..96906c8 100644
--- a/source/problem/SWE/problem_data_structure/swe_data_slope_limit.hpp
+++ b/source/problem/SWE/problem_data_structure/swe_data_slope_limit.hpp
@@ -28,9 +28,11 @@ struct SlopeLimit {
 
     std::vector<double> lengths;
     double radius;
-    bool troubled    = false;
-    double perimeter = 0.0;
-    double I         = 0.0;
+    bool troubled      = false;
+    bool trouble_front = false;
+    bool trouble_next  = false;
+    double perimeter   = 0.0;
+    double I           = 0.0;
     std::vector<DynRowVector<double>> hdif_at_gp;
 
     StatMatrix<double, SWE::n_variables, SWE::n_variables> T;
diff --git a/source/problem/SWE/problem_slope_limiter/swe_CS_sl_ompi.hpp b/source/problem/SWE/problem_slope_limiter/swe_CS_sl_ompi.hpp
index 8c1ad14..5118e2e 100644
--- a/source/problem/SWE/problem_slope_limiter/swe_CS_sl_ompi.hpp
+++ b/source/problem/SWE/problem_slope_limiter/swe_CS_sl_ompi.hpp
@@ -75,6 +75,45 @@ void CS_slope_limiter_ompi(StepperType& stepper,
     for (uint su_id = begin_sim_id; su_id < end_sim_id; ++su_id) {
         sim_units[su_id]->communicator.WaitAllSends(comm_type, stepper.GetTimestamp());
     }
+
+    for (uint pass = 0; pass < n_trouble_passes; ++pass) {
+        const bool last_pass = (pass + 1 == n_trouble_passes);
+
+        for (uint su_id = begin_sim_id; su_id < end_sim_id; ++su_id) {
+            if (!last_pass) {
+                sim_units[su_id]->communicator.ReceiveAll(comm_type, stepper.GetTimestamp());
+
+                sim_units[su_id]->discretization.mesh.CallForEachDistributedBoundary([comm_type](auto& dbound) {
+                    std::vector<double> message{(double)dbound.data.slope_limit_state.trouble_front};
+                    dbound.boundary_condition.exchanger.SetToSendBuffer(comm_type, message);
+                });
+
+                sim_units[su_id]->communicator.SendAll(comm_type, stepper.GetTimestamp());
+            }
+
+            spread_trouble(sim_units[su_id]->discretization);
+        }
+
+        if (!last_pass) {
+            for (uint su_id = begin_sim_id; su_id < end_sim_id; ++su_id) {
+                sim_units[su_id]->communicator.WaitAllReceives(comm_type, stepper.GetTimestamp());
+
+                sim_units[su_id]->discretization.mesh.CallForEachDistributedBoundary([comm_type](auto& dbound) {
+                    std::vector<double> message(1);
+                    dbound.boundary_condition.exchanger.GetFromReceiveBuffer(comm_type, message);
+                    if ((bool)message[0]) {
+                        dbound.data.slope_limit_state.trouble_next = true;
+                    }
+                });
+
+                advance_trouble(sim_units[su_id]->discretization);
+            }
+
+            for (uint su_id = begin_sim_id; su_id < end_sim_id; ++su_id) {
+                sim_units[su_id]->communicator.WaitAllSends(comm_type, stepper.GetTimestamp());
+            }
+        }
+    }
 }
 }
 
diff --git a/source/problem/SWE/problem_slope_limiter/swe_CS_sl_serial.hpp b/source/problem/SWE/problem_slope_limiter/swe_CS_sl_serial.hpp
index 036c505..4ca0646 100644
--- a/source/problem/SWE/problem_slope_limiter/swe_CS_sl_serial.hpp
+++ b/source/problem/SWE/problem_slope_limiter/swe_CS_sl_serial.hpp
@@ -19,6 +19,11 @@ void CS_slope_limiter_serial(StepperType& stepper, DiscretizationType& discretiz
 
     check_trouble(discretization, stepper, 0);
 
+    for (uint pass = 0; pass < n_trouble_passes; ++pass) {
+        spread_trouble(discretization);
+        advance_trouble(discretization);
+    }
+
     discretization.mesh.CallForEachElement([&stepper](auto& elt) { slope_limiting_kernel(stepper, elt); });
 }
 }
diff --git a/source/problem/SWE/problem_slope_limiter/swe_CS_slope_limiter.hpp b/source/problem/SWE/problem_slope_limiter/swe_CS_slope_limiter.hpp
index 347a497..4cc744a 100644
--- a/source/problem/SWE/problem_slope_limiter/swe_CS_slope_limiter.hpp
+++ b/source/problem/SWE/problem_slope_limiter/swe_CS_slope_limiter.hpp
@@ -58,15 +58,16 @@ void slope_limiting_distributed_boundary_send_kernel(const StepperType& stepper,
     std::vector<double> message(1 + SWE::n_variables + ngp);
     message[0] = (double)wd_state.wet;
     if (wd_state.wet) {
-        boundary.q_at_gp = dbound.ComputeUgp(state.q);
-        row(boundary.aux_at_gp, SWE::Auxiliaries::h) =
-            row(boundary.q_at_gp, SWE::Variables::ze) + row(boundary.aux_at_gp, SWE::Auxiliaries::bath);
         for (uint var = 0; var < SWE::n_variables; ++var) {
             message[1 + var] = sl_state.q_at_baryctr[var];
         }
-        for (uint gp = 0; gp < ngp; ++gp) {
-            message[1 + SWE::n_variables + gp] = boundary.aux_at_gp(SWE::Auxiliaries::h, gp);
-        }
+    }
+    // the neighbor checks its own jump in depth against this depth also when it is dry here
+    boundary.q_at_gp = dbound.ComputeUgp(state.q);
+    row(boundary.aux_at_gp, SWE::Auxiliaries::h) =
+        row(boundary.q_at_gp, SWE::Variables::ze) + row(boundary.aux_at_gp, SWE::Auxiliaries::bath);
+    for (uint gp = 0; gp < ngp; ++gp) {
+        message[1 + SWE::n_variables + gp] = boundary.aux_at_gp(SWE::Auxiliaries::h, gp);
     }
     dbound.boundary_condition.exchanger.SetToSendBuffer(comm_type, message);
 }
diff --git a/source/problem/SWE/problem_slope_limiter/swe_trouble_check.hpp b/source/problem/SWE/problem_slope_limiter/swe_trouble_check.hpp
index 774b1ef..4c361e8 100644
--- a/source/problem/SWE/problem_slope_limiter/swe_trouble_check.hpp
+++ b/source/problem/SWE/problem_slope_limiter/swe_trouble_check.hpp
@@ -84,10 +84,11 @@ void check_trouble(DiscretizationType& discretization, const StepperType& steppe
         }
     });
 
-    std::set<uint> troubled_area;
     const uint p = discretization.mesh.GetP();
-    discretization.mesh.CallForEachElement([&stepper, &troubled_area, p](auto& elt) {
-        auto& sl_state = elt.data.slope_limit_state;
+    discretization.mesh.CallForEachElement([&stepper, p](auto& elt) {
+        auto& sl_state         = elt.data.slope_limit_state;
+        sl_state.trouble_front = false;
+        sl_state.trouble_next  = false;
         if (elt.data.wet_dry_state.wet) {
             if (sl_state.perimeter != 0.0) {
                 double h_norm = 0.0;
@@ -97,23 +98,47 @@ void check_trouble(DiscretizationType& discretization, const StepperType& steppe
                 }
                 sl_state.I /= (std::pow(sl_state.radius, (p + 1.0) / 2.0) * sl_state.perimeter * h_norm);
                 if (sl_state.I > 1.0) {
-                    troubled_area.insert(elt.GetID());
+                    sl_state.trouble_front = true;
                 }
             }
         }
     });
+}
 
-    for (uint pass = 0; pass < 6; ++pass) {
-        std::set<uint> troubled_area_new;
-        discretization.mesh.CallForEachElement([&troubled_area, &troubled_area_new](auto& elt) {
-            if (troubled_area.find(elt.GetID()) != troubled_area.end()) {
-                elt.data.slope_limit_state.troubled = true;
-                troubled_area_new.insert(elt.GetNeighborID().begin(), elt.GetNeighborID().end());
-            }
-        });
-        troubled_area = troubled_area_new;
-    }
+// The troubled area covers the troubled elements and their neighbors up to 5 elements away, it grows by one layer of
+// elements per pass: spread_trouble marks the current layer and passes it on to the neighbors in the same mesh,
+// advance_trouble makes the elements reached (also those reached from other meshes) the next layer.
+constexpr uint n_trouble_passes = 6;
+
+template <typename DiscretizationType>
+void spread_trouble(DiscretizationType& discretization) {
+    discretization.mesh.CallForEachElement([](auto& elt) {
+        auto& sl_state = elt.data.slope_limit_state;
+        if (sl_state.trouble_front) {
+            sl_state.troubled = true;
+        }
+    });
+
+    discretization.mesh.CallForEachInterface([](auto& intface) {
+        auto& sl_state_in = intface.data_in.slope_limit_state;
+        auto& sl_state_ex = intface.data_ex.slope_limit_state;
+        if (sl_state_in.trouble_front) {
+            sl_state_ex.trouble_next = true;
+        }
+        if (sl_state_ex.trouble_front) {
+            sl_state_in.trouble_next = true;
+        }
+    });
+}
+
+template <typename DiscretizationType>
+void advance_trouble(DiscretizationType& discretization) {
+    discretization.mesh.CallForEachElement([](auto& elt) {
+        auto& sl_state         = elt.data.slope_limit_state;
+        sl_state.trouble_front = sl_state.trouble_next;
+        sl_state.trouble_next  = false;
+    });
 }
 }
 
-#endif
\ No newline at end of file
+#endif
-- 
2.43.0


From 0a73b20150398f14a94203f22aa3bf5afe1cb0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:32 +0000
Subject: [PATCH 20/27] fix: do not let the slope limiter cut the surface below
 the ground

With wetting and drying, an element whose limited surface falls below the wet depth at
a corner is left as wetting and drying has left it.
---
 .../SWE/problem_slope_limiter/swe_CS_slope_limiter.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/source/problem/SWE/problem_slope_limiter/swe_CS_slope_limiter.hpp b/source/problem/SWE/problem_slope_limiter/swe_CS_slope_limiter.hpp
index 4cc744a..3ad2c93 100644
--- a/source/problem/SWE/problem_slope_limiter/swe_CS_slope_limiter.hpp
+++ b/source/problem/SWE/problem_slope_limiter/swe_CS_slope_limiter.hpp
@@ -178,6 +178,16 @@ void slope_limiting_kernel(const StepperType& stepper, ElementType& elt) {
 
         sl_state.q_at_vrtx += sl_state.delta * sl_state.T;
 
+        if (SWE::PostProcessing::wetting_drying) {
+            // a limited surface may cut the ground, the element is left as wetting and drying has left it then
+            for (uint vrtx = 0; vrtx < elt.data.get_nvrtx(); ++vrtx) {
+                if (sl_state.q_at_vrtx(SWE::Variables::ze, vrtx) + sl_state.bath_at_vrtx[vrtx] <=
+                    PostProcessing::h_o - PostProcessing::h_o_threshold) {
+                    return;
+                }
+            }
+        }
+
         for (uint var = 0; var < SWE::n_variables; ++var) {
             double del_q_norm = norm(row(sl_state.q_at_vrtx, var) - row(sl_state.q_lin, var));
             double q_norm     = norm(row(sl_state.q_lin, var));
-- 
2.43.0


From bb8794fca6b7958d94b387a5c75820416967517b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:32 +0000
Subject: [PATCH 21/27] fix: reflect at walls with respect to the spherical
 mass flux

Walls that do not lie along the axes leaked water in spherical coordinates.
---
 .../boundary_conditions/rkdg_swe_bc_land.hpp  | 40 ++++++-------------
 .../rkdg_swe_dbc_distributed_levee.hpp        |  6 ++-
 .../rkdg_swe_is_levee.hpp                     |  7 +++-
 3 files changed, 22 insertions(+), 31 deletions(-)

diff --git a/source/problem/SWE/discretization_RKDG/boundary_conditions/rkdg_swe_bc_land.hpp b/source/problem/SWE/discretization_RKDG/boundary_conditions/rkdg_swe_bc_land.hpp
index 8bce928..d86aac9 100644
--- a/source/problem/SWE/discretization_RKDG/boundary_conditions/rkdg_swe_bc_land.hpp
+++ b/source/problem/SWE/discretization_RKDG/boundary_conditions/rkdg_swe_bc_land.hpp
@@ -23,6 +23,7 @@ class Land {
                      Column<HybMatrix<double, SWE::n_variables>>&& F_hat);
 
     void GetEX(const Column<HybMatrix<double, SWE::n_dimensions>>& surface_normal,
+               const double sp,
                const Column<HybMatrix<double, SWE::n_variables>>& q_in,
                Column<HybMatrix<double, SWE::n_variables>>&& q_ex);
 };
@@ -41,21 +42,12 @@ template <typename StepperType, typename BoundaryType>
 void Land::ComputeFlux(const StepperType& stepper, BoundaryType& bound) {
     auto& boundary = bound.data.boundary[bound.bound_id];
 
-    auto n_x = row(bound.surface_normal, GlobalCoord::x);
-    auto n_y = row(bound.surface_normal, GlobalCoord::y);
-    auto t_x = -n_y;
-    auto t_y = n_x;
-
-    auto qn_ex = -(vec_cw_mult(row(boundary.q_at_gp, SWE::Variables::qx), n_x) +
-                   vec_cw_mult(row(boundary.q_at_gp, SWE::Variables::qy), n_y));
-    auto qt_ex = vec_cw_mult(row(boundary.q_at_gp, SWE::Variables::qx), t_x) +
-                 vec_cw_mult(row(boundary.q_at_gp, SWE::Variables::qy), t_y);
-
-    row(this->q_ex, SWE::Variables::ze) = row(boundary.q_at_gp, SWE::Variables::ze);
-    row(this->q_ex, SWE::Variables::qx) = vec_cw_mult(qn_ex, n_x) + vec_cw_mult(qt_ex, t_x);
-    row(this->q_ex, SWE::Variables::qy) = vec_cw_mult(qn_ex, n_y) + vec_cw_mult(qt_ex, t_y);
-
     for (uint gp = 0; gp < columns(boundary.q_at_gp); ++gp) {
+        this->GetEX(column(bound.surface_normal, gp),
+                    boundary.aux_at_gp(SWE::Auxiliaries::sp, gp),
+                    column(boundary.q_at_gp, gp),
+                    column(this->q_ex, gp));
+
         LLF_flux(Global::g,
                  column(boundary.q_at_gp, gp),
                  column(this->q_ex, gp),
@@ -70,28 +62,22 @@ void Land::ComputeFlux(const Column<HybMatrix<double, SWE::n_dimensions>>& surfa
                        const Column<HybMatrix<double, SWE::n_auxiliaries>>& aux_in,
                        Column<HybMatrix<double, SWE::n_variables>>&& F_hat) {
     // *** //
-    double n_x = surface_normal[GlobalCoord::x];
-    double n_y = surface_normal[GlobalCoord::y];
-    double t_x = -n_y;
-    double t_y = n_x;
-
-    double qn_ex = -(q_in[SWE::Variables::qx] * n_x + q_in[SWE::Variables::qy] * n_y);
-    double qt_ex = q_in[SWE::Variables::qx] * t_x + q_in[SWE::Variables::qy] * t_y;
-
-    this->q_ex(SWE::Variables::ze, 0) = q_in[SWE::Variables::ze];
-    this->q_ex(SWE::Variables::qx, 0) = qn_ex * n_x + qt_ex * t_x;
-    this->q_ex(SWE::Variables::qy, 0) = qn_ex * n_y + qt_ex * t_y;
+    this->GetEX(surface_normal, aux_in[SWE::Auxiliaries::sp], q_in, column(this->q_ex, 0));
 
     LLF_flux(Global::g, q_in, column(this->q_ex, 0), aux_in, surface_normal, std::move(F_hat));
 }
 
 void Land::GetEX(const Column<HybMatrix<double, SWE::n_dimensions>>& surface_normal,
+                 const double sp,
                  const Column<HybMatrix<double, SWE::n_variables>>& q_in,
                  Column<HybMatrix<double, SWE::n_variables>>&& q_ex) {
     double n_x, n_y, t_x, t_y, qn_in, qt_in, qn_ex, qt_ex;
 
-    n_x = surface_normal[GlobalCoord::x];
-    n_y = surface_normal[GlobalCoord::y];
+    // the mass flux across the boundary is sp * qx * nx + qy * ny
+    double norm = std::hypot(sp * surface_normal[GlobalCoord::x], surface_normal[GlobalCoord::y]);
+
+    n_x = sp * surface_normal[GlobalCoord::x] / norm;
+    n_y = surface_normal[GlobalCoord::y] / norm;
     t_x = -n_y;
     t_y = n_x;
 
diff --git a/source/problem/SWE/discretization_RKDG/dist_boundary_conditions/rkdg_swe_dbc_distributed_levee.hpp b/source/problem/SWE/discretization_RKDG/dist_boundary_conditions/rkdg_swe_dbc_distributed_levee.hpp
index 2ed7e4b..3cd51e6 100644
--- a/source/problem/SWE/discretization_RKDG/dist_boundary_conditions/rkdg_swe_dbc_distributed_levee.hpp
+++ b/source/problem/SWE/discretization_RKDG/dist_boundary_conditions/rkdg_swe_dbc_distributed_levee.hpp
@@ -100,8 +100,10 @@ void DistributedLevee::ComputeFlux(DistributedBoundaryType& dbound) {
             std::abs(h_above_levee_in - h_above_levee_ex) <= H_tolerance) {          // equal within tolerance
 
             // reflective boundary
-            this->land_boundary.GetEX(
-                column(dbound.surface_normal, gp), column(boundary.q_at_gp, gp), column(this->q_ex, gp));
+            this->land_boundary.GetEX(column(dbound.surface_normal, gp),
+                                      boundary.aux_at_gp(SWE::Auxiliaries::sp, gp),
+                                      column(boundary.q_at_gp, gp),
+                                      column(this->q_ex, gp));
         } else if (h_above_levee_in > h_above_levee_ex) {  // overtopping from in to ex
             double n_x, n_y, t_x, t_y, qn_in, qt_in;
 
diff --git a/source/problem/SWE/discretization_RKDG/interface_specializations/rkdg_swe_is_levee.hpp b/source/problem/SWE/discretization_RKDG/interface_specializations/rkdg_swe_is_levee.hpp
index 3fc8cac..03c3066 100644
--- a/source/problem/SWE/discretization_RKDG/interface_specializations/rkdg_swe_is_levee.hpp
+++ b/source/problem/SWE/discretization_RKDG/interface_specializations/rkdg_swe_is_levee.hpp
@@ -90,11 +90,14 @@ void Levee::ComputeFlux(InterfaceType& intface) {
             std::abs(h_above_levee_in - h_above_levee_ex) <= H_tolerance) {          // equal within tolerance
 
             // reflective boundary in
-            this->land_boundary.GetEX(
-                column(intface.surface_normal_in, gp), column(boundary_in.q_at_gp, gp), column(this->q_in_ex, gp));
+            this->land_boundary.GetEX(column(intface.surface_normal_in, gp),
+                                      boundary_in.aux_at_gp(SWE::Auxiliaries::sp, gp),
+                                      column(boundary_in.q_at_gp, gp),
+                                      column(this->q_in_ex, gp));
 
             // reflective boundary ex
             this->land_boundary.GetEX(column(intface.surface_normal_ex, gp_ex),
+                                      boundary_ex.aux_at_gp(SWE::Auxiliaries::sp, gp_ex),
                                       column(boundary_ex.q_at_gp, gp_ex),
                                       column(this->q_ex_ex, gp_ex));
         } else if (h_above_levee_in > h_above_levee_ex) {  // overtopping from in to ex
-- 
2.43.0


From 8571b13e9cfa97f74c09d8b378b08b8555d580ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:26 +0000
Subject: [PATCH 22/27] fix: take the spherical correction of each side of a
 barrier from its own nodes

The correction factor of the exterior side of an interface was computed from
the nodes of the interior side. The two sides of a levee have different nodes,
so that the result depended on which side is the interior one, and differed
between serial and distributed runs.
---
 .../swe_pre_init_data.hpp                     | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/source/problem/SWE/problem_preprocessor/swe_pre_init_data.hpp b/source/problem/SWE/problem_preprocessor/swe_pre_init_data.hpp
index 1410cd7..0f9267e 100644
--- a/source/problem/SWE/problem_preprocessor/swe_pre_init_data.hpp
+++ b/source/problem/SWE/problem_preprocessor/swe_pre_init_data.hpp
@@ -66,6 +66,7 @@ void initialize_data_serial(MeshType& mesh, const ProblemSpecificInputType& prob
 
     mesh.CallForEachInterface([&problem_specific_input](auto& intface) {
         auto& shape_in    = intface.GetShapeIN();
+        auto& shape_ex    = intface.GetShapeEX();
         auto& boundary_in = intface.data_in.boundary[intface.bound_id_in];
         auto& boundary_ex = intface.data_ex.boundary[intface.bound_id_ex];
 
@@ -78,19 +79,21 @@ void initialize_data_serial(MeshType& mesh, const ProblemSpecificInputType& prob
             intface.ComputeUgpEX(row(intface.data_ex.state[0].aux, SWE::Auxiliaries::bath));
 
         if (problem_specific_input.spherical_projection.type == SWE::SphericalProjectionType::Enable) {
-            DynRowVector<double> y_node(nnode);
-            for (uint node_id = 0; node_id < intface.data_in.get_nnode(); ++node_id) {
-                y_node[node_id] = shape_in.nodal_coordinates[node_id][GlobalCoord::y];
+            DynRowVector<double> y_node_in(nnode);
+            DynRowVector<double> y_node_ex(nnode);
+            for (uint node_id = 0; node_id < nnode; ++node_id) {
+                y_node_in[node_id] = shape_in.nodal_coordinates[node_id][GlobalCoord::y];
+                y_node_ex[node_id] = shape_ex.nodal_coordinates[node_id][GlobalCoord::y];
             }
-            DynRowVector<double> y_at_gp(ngp);
-            y_at_gp = intface.ComputeNodalUgpIN(y_node);
+            // both sides of a barrier have nodes of their own
+            DynRowVector<double> y_at_gp_in = intface.ComputeNodalUgpIN(y_node_in);
+            DynRowVector<double> y_at_gp_ex = intface.ComputeNodalUgpEX(y_node_ex);
 
             const double cos_phi_o = std::cos(problem_specific_input.spherical_projection.latitude_o * PI / 180.0);
             const double R         = problem_specific_input.spherical_projection.R;
             for (uint gp = 0; gp < ngp; ++gp) {
-                const uint gp_ex                                   = ngp - gp - 1;
-                boundary_in.aux_at_gp(SWE::Auxiliaries::sp, gp)    = cos_phi_o / std::cos(y_at_gp[gp] / R);
-                boundary_ex.aux_at_gp(SWE::Auxiliaries::sp, gp_ex) = cos_phi_o / std::cos(y_at_gp[gp] / R);
+                boundary_in.aux_at_gp(SWE::Auxiliaries::sp, gp) = cos_phi_o / std::cos(y_at_gp_in[gp] / R);
+                boundary_ex.aux_at_gp(SWE::Auxiliaries::sp, gp) = cos_phi_o / std::cos(y_at_gp_ex[gp] / R);
             }
         } else {
             for (uint gp = 0; gp < ngp; ++gp) {
-- 
2.43.0


From 933de65ad8b9e9f50299864e3273f99ecc9626c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:31 +0000
Subject: [PATCH 23/27] fix: a barrier node shared by several levees took the
 heights of all of them where the barrier is cut by a subdomain border

---
 .../gn_pre_create_dbound.hpp                  | 26 ++++++++++---------
 .../problem/SWE/problem_input/swe_inputs.cpp  | 12 ++++++++-
 .../problem/SWE/problem_input/swe_inputs.hpp  |  2 ++
 .../swe_pre_create_dbound.hpp                 | 26 ++++++++++---------
 4 files changed, 41 insertions(+), 25 deletions(-)

diff --git a/source/problem/Green-Naghdi/problem_preprocessor/gn_pre_create_dbound.hpp b/source/problem/Green-Naghdi/problem_preprocessor/gn_pre_create_dbound.hpp
index cc99705..29465a6 100644
--- a/source/problem/Green-Naghdi/problem_preprocessor/gn_pre_create_dbound.hpp
+++ b/source/problem/Green-Naghdi/problem_preprocessor/gn_pre_create_dbound.hpp
@@ -86,25 +86,27 @@ void create_distributed_boundaries(std::map<uchar, std::map<std::pair<uint, uint
 
                 raw_boundary.p = p;
 
-                auto& levee_data = problem_input.levee_is_data;
+                auto& levee_data  = problem_input.levee_is_data;
+                auto& levee_faces = problem_input.levee_is_faces;
 
                 std::vector<SWE::LeveeInput> levee;
 
-                for (uint node = 0; node < raw_boundary.node_ID.size(); ++node) {
-                    bool found = false;
+                auto face = levee_faces.find({raw_boundary.node_ID.front(), raw_boundary.node_ID.back()});
 
-                    for (auto& levee_node : levee_data) {
-                        if (levee_node.first.first == raw_boundary.node_ID[node] ||
-                            levee_node.first.second == raw_boundary.node_ID[node]) {
-                            levee.push_back(levee_node.second);
+                if (face == levee_faces.end()) {
+                    throw std::logic_error("Fatal Error: unable to find distributed levee data!\n");
+                }
 
-                            found = true;
-                        }
-                    }
+                // a node may belong to several levees, the node facing it across this edge tells them apart
+                for (auto& node_pair : {std::make_pair(face->first.first, face->second.first),
+                                        std::make_pair(face->first.second, face->second.second)}) {
+                    auto levee_node = levee_data.find(node_pair);
 
-                    if (!found) {
-                        throw std::logic_error("Fatal Error: unable to find distributed levee data!\n");
+                    if (levee_node == levee_data.end()) {
+                        levee_node = levee_data.find({node_pair.second, node_pair.first});
                     }
+
+                    levee.push_back(levee_node->second);
                 }
 
                 mesh.template CreateDistributedBoundary<DBTypeDistributedLevee>(
diff --git a/source/problem/SWE/problem_input/swe_inputs.cpp b/source/problem/SWE/problem_input/swe_inputs.cpp
index 6bb61fb..3d29fbb 100644
--- a/source/problem/SWE/problem_input/swe_inputs.cpp
+++ b/source/problem/SWE/problem_input/swe_inputs.cpp
@@ -324,7 +324,7 @@ void Inputs::read_bcis(const std::string& bcis_file) {
 
             this->flow_bc_data.push_back(std::move(flow_bound));
         } else if (btype == SWE::BoundaryTypes::levee) {
-            uint front_node, back_node;
+            uint front_node, back_node, prev_front_node, prev_back_node;
 
             for (uint node = 0; node < nnodes; ++node) {
                 next_line();
@@ -336,6 +336,16 @@ void Inputs::read_bcis(const std::string& bcis_file) {
                 check_record();
 
                 this->levee_is_data[std::pair<uint, uint>{front_node, back_node}] = levee;
+
+                if (node > 0) {
+                    this->levee_is_faces[{prev_front_node, front_node}] = {prev_back_node, back_node};
+                    this->levee_is_faces[{front_node, prev_front_node}] = {back_node, prev_back_node};
+                    this->levee_is_faces[{prev_back_node, back_node}]   = {prev_front_node, front_node};
+                    this->levee_is_faces[{back_node, prev_back_node}]   = {front_node, prev_front_node};
+                }
+
+                prev_front_node = front_node;
+                prev_back_node  = back_node;
             }
         }
     }
diff --git a/source/problem/SWE/problem_input/swe_inputs.hpp b/source/problem/SWE/problem_input/swe_inputs.hpp
index 8031269..db684e5 100644
--- a/source/problem/SWE/problem_input/swe_inputs.hpp
+++ b/source/problem/SWE/problem_input/swe_inputs.hpp
@@ -136,6 +136,8 @@ struct Inputs {
     std::vector<TideBoundary> tide_bc_data;
     std::vector<FlowBoundary> flow_bc_data;
     std::map<std::pair<uint, uint>, LeveeInput> levee_is_data;
+    // nodes of a levee edge -> nodes that face them across the levee
+    std::map<std::pair<uint, uint>, std::pair<uint, uint>> levee_is_faces;
 
     FunctionSource function_source;
     BottomFriction bottom_friction;
diff --git a/source/problem/SWE/problem_preprocessor/swe_pre_create_dbound.hpp b/source/problem/SWE/problem_preprocessor/swe_pre_create_dbound.hpp
index cae759b..61ed8c4 100644
--- a/source/problem/SWE/problem_preprocessor/swe_pre_create_dbound.hpp
+++ b/source/problem/SWE/problem_preprocessor/swe_pre_create_dbound.hpp
@@ -86,25 +86,27 @@ void create_distributed_boundaries(std::map<uchar, std::map<std::pair<uint, uint
 
                 raw_boundary.p = p;
 
-                auto& levee_data = problem_input.levee_is_data;
+                auto& levee_data  = problem_input.levee_is_data;
+                auto& levee_faces = problem_input.levee_is_faces;
 
                 std::vector<LeveeInput> levee;
 
-                for (uint node = 0; node < raw_boundary.node_ID.size(); ++node) {
-                    bool found = false;
+                auto face = levee_faces.find({raw_boundary.node_ID.front(), raw_boundary.node_ID.back()});
 
-                    for (auto& levee_node : levee_data) {
-                        if (levee_node.first.first == raw_boundary.node_ID[node] ||
-                            levee_node.first.second == raw_boundary.node_ID[node]) {
-                            levee.push_back(levee_node.second);
+                if (face == levee_faces.end()) {
+                    throw std::logic_error("Fatal Error: unable to find distributed levee data!\n");
+                }
 
-                            found = true;
-                        }
-                    }
+                // a node may belong to several levees, the node facing it across this edge tells them apart
+                for (auto& node_pair : {std::make_pair(face->first.first, face->second.first),
+                                        std::make_pair(face->first.second, face->second.second)}) {
+                    auto levee_node = levee_data.find(node_pair);
 
-                    if (!found) {
-                        throw std::logic_error("Fatal Error: unable to find distributed levee data!\n");
+                    if (levee_node == levee_data.end()) {
+                        levee_node = levee_data.find({node_pair.second, node_pair.first});
                     }
+
+                    levee.push_back(levee_node->second);
                 }
 
                 mesh.template CreateDistributedBoundary<DBTypeDistributedLevee>(
-- 
2.43.0


From 77c3e714dfd9243d43a0c49121e0536f7f28278f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:31 +0000
Subject: [PATCH 24/27] fix: a subdomain without neighbours (a single piece, a
 separate basin) read requests that do not exist and crashed

---
 source/communication/ompi_communicator.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/source/communication/ompi_communicator.cpp b/source/communication/ompi_communicator.cpp
index 4f0ba95..db34663 100644
--- a/source/communication/ompi_communicator.cpp
+++ b/source/communication/ompi_communicator.cpp
@@ -19,6 +19,10 @@ OMPICommunicator::OMPICommunicator(const DistributedBoundaryMetaData& db_data) {
 }
 
 void OMPICommunicator::InitializeCommunication() {
+    if (this->rank_boundaries.empty()) {  // no neighbors: a single subdomain or a separate part of the mesh
+        return;
+    }
+
     uint ncomm   = this->rank_boundaries.begin()->send_buffer.size();
     uint nrbound = this->rank_boundaries.size();
 
@@ -59,18 +63,34 @@ void OMPICommunicator::InitializeCommunication() {
 }
 
 void OMPICommunicator::SendAll(const uint comm_type, const uint timestamp) {
+    if (this->rank_boundaries.empty()) {
+        return;
+    }
+
     MPI_Startall(this->send_requests[comm_type].size(), &this->send_requests[comm_type].front());
 }
 
 void OMPICommunicator::ReceiveAll(const uint comm_type, const uint timestamp) {
+    if (this->rank_boundaries.empty()) {
+        return;
+    }
+
     MPI_Startall(this->receive_requests[comm_type].size(), &this->receive_requests[comm_type].front());
 }
 
 void OMPICommunicator::WaitAllSends(const uint comm_type, const uint timestamp) {
+    if (this->rank_boundaries.empty()) {
+        return;
+    }
+
     MPI_Waitall(this->send_requests[comm_type].size(), &this->send_requests[comm_type].front(), MPI_STATUSES_IGNORE);
 }
 
 void OMPICommunicator::WaitAllReceives(const uint comm_type, const uint timestamp) {
+    if (this->rank_boundaries.empty()) {
+        return;
+    }
+
     MPI_Waitall(
         this->receive_requests[comm_type].size(), &this->receive_requests[comm_type].front(), MPI_STATUSES_IGNORE);
 }
\ No newline at end of file
-- 
2.43.0


From c7d3a94bcdf414bb34a065398a7193f2c81ca213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:31 +0000
Subject: [PATCH 25/27] fix: with more than 256 subdomains per process,
 messages between different pairs of subdomains shared a tag and were mixed up

---
 source/communication/ompi_communicator.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/source/communication/ompi_communicator.cpp b/source/communication/ompi_communicator.cpp
index db34663..5488981 100644
--- a/source/communication/ompi_communicator.cpp
+++ b/source/communication/ompi_communicator.cpp
@@ -9,10 +9,12 @@ OMPICommunicator::OMPICommunicator(const DistributedBoundaryMetaData& db_data) {
         rank_boundary.send_rank    = rb_meta_data.locality_ex;
         rank_boundary.receive_rank = rb_meta_data.locality_ex;
 
-        rank_boundary.send_tag =
-            (int)((unsigned short)rb_meta_data.submesh_in << 8 | (unsigned short)rb_meta_data.submesh_ex);
-        rank_boundary.receive_tag =
-            (int)((unsigned short)rb_meta_data.submesh_ex << 8 | (unsigned short)rb_meta_data.submesh_in);
+        if (rb_meta_data.submesh_in >= 1 << 12 || rb_meta_data.submesh_ex >= 1 << 12) {
+            throw std::logic_error("Fatal Error: too many subdomains per process to tell their messages apart!\n");
+        }
+
+        rank_boundary.send_tag    = (int)(rb_meta_data.submesh_in << 12 | rb_meta_data.submesh_ex);
+        rank_boundary.receive_tag = (int)(rb_meta_data.submesh_ex << 12 | rb_meta_data.submesh_in);
 
         this->rank_boundaries.push_back(std::move(rank_boundary));
     }
-- 
2.43.0


From 531ed9967524aee4bf7f4a01b2d81d1c7d132eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:11 +0000
Subject: [PATCH 26/27] fix: Green-Naghdi run with meteo forcing asked for
 forcing files at the step counts of its two steppers and discarded data still
 needed

---
 .../problem/SWE/problem_parser/swe_parser.hpp | 21 ++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/source/problem/SWE/problem_parser/swe_parser.hpp b/source/problem/SWE/problem_parser/swe_parser.hpp
index c41a79b..df2cb4a 100644
--- a/source/problem/SWE/problem_parser/swe_parser.hpp
+++ b/source/problem/SWE/problem_parser/swe_parser.hpp
@@ -9,6 +9,7 @@ namespace SWE {
 class Parser {
   private:
     bool parsing_input = false;
+    double dt          = 0.0;
 
     uint meteo_parse_frequency;
     std::string meteo_data_file;
@@ -28,6 +29,8 @@ class Parser {
     void ParseInput(const StepperType& stepper, MeshType& mesh);
 
   private:
+    template <typename StepperType>
+    uint GetStep(const StepperType& stepper) const;
     template <typename StepperType>
     void ParseMeteoInput(const StepperType& stepper);
     template <typename StepperType>
@@ -39,6 +42,8 @@ Parser::Parser(const InputParameters<ProblemSpecificInputType>& input) {
     if (input.problem_input.meteo_forcing.type == MeteoForcingType::Enable) {
         this->parsing_input = true;
 
+        this->dt = input.stepper_input.dt;
+
         this->meteo_parse_frequency =
             Utilities::count_steps(input.problem_input.meteo_forcing.frequency, input.stepper_input.dt);
         this->meteo_data_file = input.problem_input.meteo_forcing.meteo_data_file;
@@ -49,10 +54,16 @@ template <typename ProblemSpecificInputType>
 Parser::Parser(const InputParameters<ProblemSpecificInputType>& input, const uint locality_id, const uint submesh_id)
     : Parser(input) {}  // this is for partitioned input files
 
+// Meteo data is given for steps of the simulation, of which a stepper of a splitting scheme may take only parts
+template <typename StepperType>
+uint Parser::GetStep(const StepperType& stepper) const {
+    return stepper.GetStep() / (uint)std::round(this->dt / stepper.GetDT());
+}
+
 template <typename StepperType, typename MeshType>
 void Parser::ParseInput(const StepperType& stepper, MeshType& mesh) {
     if (SWE::SourceTerms::meteo_forcing) {
-        if (stepper.GetStep() % this->meteo_parse_frequency == 0 && stepper.GetStage() == 0) {
+        if (this->GetStep(stepper) % this->meteo_parse_frequency == 0 && stepper.GetStage() == 0) {
             this->ParseMeteoInput(stepper);
         }
 
@@ -85,7 +96,7 @@ void Parser::ParseInput(const StepperType& stepper, MeshType& mesh) {
 
 template <typename StepperType>
 void Parser::ParseMeteoInput(const StepperType& stepper) {
-    uint step = stepper.GetStep();
+    uint step = this->GetStep(stepper);
 
     if (this->node_meteo_data_step.find(step - this->meteo_parse_frequency) != this->node_meteo_data_step.end()) {
         this->node_meteo_data_step.erase(this->node_meteo_data_step.find(step - this->meteo_parse_frequency));
@@ -153,13 +164,13 @@ void Parser::ParseMeteoInput(const StepperType& stepper) {
 
 template <typename StepperType>
 void Parser::InterpolateMeteoData(const StepperType& stepper) {
-    uint step = stepper.GetStep();
+    uint step = this->GetStep(stepper);
 
     uint step_start = step - step % this->meteo_parse_frequency;
     uint step_end   = step_start + this->meteo_parse_frequency;
 
-    double t_start = step_start * stepper.GetDT();
-    double t_end   = step_end * stepper.GetDT();
+    double t_start = step_start * this->dt;
+    double t_end   = step_end * this->dt;
 
     double interp_factor = (stepper.GetTimeAtCurrentStage() - t_start) / (t_end - t_start);
 
-- 
2.43.0


From 2919e1335490464053fba405fb7b4f353b74f4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:52 +0000
Subject: [PATCH 27/27] fix: a multi-process run waited for ever for a mesh
 piece that does not exist

---
 source/simulation/ompi/simulation_ompi.hpp | 25 ++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/source/simulation/ompi/simulation_ompi.hpp b/source/simulation/ompi/simulation_ompi.hpp
index 38f1a53..ab7f39d 100644
--- a/source/simulation/ompi/simulation_ompi.hpp
+++ b/source/simulation/ompi/simulation_ompi.hpp
@@ -56,6 +56,31 @@ OMPISimulation<ProblemType>::OMPISimulation(const std::string& input_string) {
         ++submesh_id;
     }
 
+    if (Utilities::file_exists(submesh_file_prefix + std::to_string(submesh_id) + ".dbmd")) {
+        throw std::logic_error("Fatal Error: " + submesh_file_prefix + std::to_string(submesh_id) +
+                               submesh_file_postfix + " was not found!\n");
+    }
+
+    // Every submesh bordering on one of this locality has to be held by its own, or both sides would wait forever
+    int n_localities;
+    MPI_Comm_size(MPI_COMM_WORLD, &n_localities);
+
+    uint n_submeshes = this->sim_units.size();
+    std::vector<uint> n_submeshes_at(n_localities);
+    MPI_Allgather(&n_submeshes, 1, MPI_UNSIGNED, &n_submeshes_at.front(), 1, MPI_UNSIGNED, MPI_COMM_WORLD);
+
+    for (auto& sim_unit : this->sim_units) {
+        for (uint rb = 0; rb < sim_unit->communicator.GetRankBoundaryNumber(); ++rb) {
+            const RankBoundaryMetaData& db_data = sim_unit->communicator.GetRankBoundary(rb).db_data;
+
+            if (db_data.locality_ex >= n_submeshes_at.size() ||
+                db_data.submesh_ex >= n_submeshes_at[db_data.locality_ex]) {
+                throw std::logic_error("Fatal Error: submesh " + std::to_string(db_data.locality_ex) + '_' +
+                                       std::to_string(db_data.submesh_ex) + " was not found!\n");
+            }
+        }
+    }
+
     if (this->sim_units.empty()) {
         std::cerr << "Warning: MPI Rank " << locality_id << " has not been assigned any work. This may inidicate\n"
                   << "         poor partitioning and imply degraded performance." << std::endl;
-- 
2.43.0

