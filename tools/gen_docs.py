#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (kept in step from one table)."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCHED = "every rank count the grid can be split over, message timing, eager or rendezvous sends, collective timing, order of reductions and poll results"
P = []
NA = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=hook, **({"state": [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {}))))

prop("C01", "Grids are split over the processes without gaps, overlap or stale neighbours",
     "For every grid, periodicity and number of processes, each velocity and pressure node is owned by exactly one process, the pressure and velocity boxes of a process nest, and the spacing is the domain length divided by the cells. After a ghost update each process sees in its own nodes and its ghost nodes exactly the value the owner holds, and contributions added by several processes to one node sum up. The boxes of owned nodes and of owned cells that a process reports agree with the split.",
     ["schedules", "configurations", "inputs"], "all grid sizes, domain lengths, periodic directions, process counts; " + SCHED,
     "the tests run on one to four processes and fixed sizes and look only at the end result, with whatever timing the machine happens to give",
     ["cafes/fem/mesh.hpp", "cafes/petsc/vec.hpp"], [("createMesh: pressure grid refined to the velocity grid, composed", "cafes/fem/mesh.hpp"), ("get_DM_bounds", "cafes/fem/mesh.hpp"), ("petsc_vec ghost updates", "cafes/petsc/vec.hpp")], ["owned boxes, ghost values and sums reported by every process"])
prop("C02", "The Stokes operator is the discrete Stokes operator",
     "Applying the problem's operator to any vector gives, to rounding, the finite element Stokes operator: viscous term (gradient or strain form), pressure gradient, divergence, and identity on prescribed velocity values. Assembled and matrix-free forms agree with it for every grid, spacing, periodicity and set of prescribed components the form supports, on any number of processes, and the operand is not modified.",
     ["inputs", "configurations", "schedules"], "all vectors, grids, anisotropic spacings, periodic directions, prescribed components; " + SCHED,
     "the tests solve a few fixed problems to a loose tolerance and never look at single products, at anisotropic or periodic grids, or at other process counts",
     ["cafes/fem/matrixFree.hpp", "cafes/fem/quadrature.hpp", "cafes/fem/assembling.hpp", "cafes/problem/stokes.hpp", "cafes/fem/bc.hpp"], [("stokes_matrix/diag_block_mult", "cafes/fem/matrixFree.hpp"), ("assembled blocks", "cafes/fem/assembling.hpp")], ["result of one product, value by value"])
prop("C03", "Load vector and boundary values",
     "The right-hand side equals the velocity mass matrix applied to the nodal force values, with every prescribed velocity component holding exactly the value of its boundary function at the node's coordinates, and zero in the pressure equations; the mass product offered by itself (apply_mass_matrix) is that of velocity and pressure for any vector. This holds for any force components, boundary functions, set of prescribed components, grid, periodicity and number of processes; where two borders meet the value of either is accepted.",
     ["inputs", "configurations", "schedules"], "all force and boundary functions, prescribed components, grids; " + SCHED,
     "the tests use constant or few fixed functions and square grids",
     ["cafes/fem/rhs.hpp", "cafes/fem/bc.hpp", "cafes/fem/matrixFree.hpp", "cafes/problem/stokes.hpp"], [("set_rhs", "cafes/fem/rhs.hpp"), ("apply_mass_matrix", "cafes/fem/matrixFree.hpp"), ("SetDirichletOnRHS", "cafes/fem/bc.hpp")], ["right-hand side, value by value"])
prop("C04", "A solve returns the discrete solution",
     "Whenever the solve reports convergence its velocity and pressure (up to a constant) are, within the solver's tolerance, the unique solution of the discrete Stokes problem with the given boundary values and force, and for well-posed data it does converge. This holds for direct, assembled and matrix-free iterative and multigrid solvers, with one periodic direction or none, on any number of processes.",
     ["inputs", "configurations", "schedules"], "all well-posed boundary data and forces, solver choices, grids; " + SCHED,
     "the tests accept any error below a bound on a few square grids; a wrong but small term passes",
     ["cafes/problem/stokes.hpp", "cafes/problem/options.hpp", "cafes/fem/mesh.hpp"], [("setup_RHS, setup_KSP, solve", "cafes/problem/stokes.hpp"), ("multigrid levels", "cafes/problem/stokes.hpp")], ["solution against an independent factorised reference"])
prop("C05", "A whole run finishes and its result does not depend on timing or process count",
     "Every program of well-formed calls (set-up, right-hand sides, products, solves, interpolation, saving, particle problems with or without the treatment of close pairs) runs to its end: no process waits for ever, no collective call is met by a different one, and no message or request is left behind. Each field it computes is the same, to rounding or solver tolerance, as when one process runs the same program alone.",
     ["schedules", "programs", "configurations"], "all programs of calls; " + SCHED,
     "each test is one program with one timing per run; a hang or a dependence on timing that needs a rare order of messages is not seen",
     ["cafes/problem", "cafes/particle", "cafes/fem", "cafes/io", "cafes/posttraitement"], [("collective calls made by all processes in one order", "cafes/particle/particle.hpp"), ("singularity terms on owned boxes", "cafes/particle/singularity/add_singularity.hpp")], ["progress of every process; fields against the one-process run"])
prop("C06", "A particle occupies the same points however the grid is split",
     "The unknowns of a particle problem are exactly the velocity values at grid nodes strictly inside each particle, each owned by exactly one process, for every grid, spacing, position, size and orientation of the particles, number of particles and processes, for circles and for superellipses of a program's own. Where rounding decides whether a node on the boundary counts as inside, it decides alike for every split. The surface points are the same set for every split, each held by the one process that owns its cell with the right cell and position in it, and the counts of surface and integration points that all processes use are the totals, also when a particle problem is set up again after its particles have moved.",
     ["inputs", "configurations", "schedules"], "all disjoint circles or superellipses inside the domain, grids, splits, repeated set-ups; " + SCHED,
     "the tests place one or two particles at fixed places on a square grid and check only a force or velocity",
     ["cafes/particle/particle.hpp", "cafes/particle/geometry/box.hpp", "cafes/particle/geometry/circle.hpp"], [("find_fluid_points_insides, find_surf_points_insides, find_radial_surf_points_insides", "cafes/particle/particle.hpp"), ("set_materials bounding boxes", "cafes/particle/geometry/box.hpp")], ["unknowns, surface points and counts on every process"])
prop("C07", "Control operator and right-hand side for particles under forces",
     "For particles under given forces, applying the control operator to any control gives the difference between the velocity induced inside each particle and its rigid part, computed as: fluid solve with the control (and forces) inside the particles, removal of the mean and rotation on each surface, second solve with that surface layer, removal of the mean and rotation inside. The right-hand side is minus its value at zero control with the forces and boundary data, and repeated applications give the same answer on any number of processes.",
     ["inputs", "histories", "configurations", "schedules"], "all controls, particle sets, forces, grids, sequences of applications; " + SCHED,
     "the tests compare one final force or velocity for one configuration",
     ["cafes/problem/sem.hpp", "cafes/problem/particle_operator.hpp", "cafes/problem/problem.hpp"], [("sem_matrix", "cafes/problem/particle_operator.hpp"), ("interp_fluid_to_surf, simple_layer, rigid projections", "cafes/problem/particle_operator.hpp")], ["result of one application, value by value"])
prop("C08", "State after the solve for particles under forces",
     "After a solve for particles under given forces the fluid field equals the field produced by the computed control, the forces and the boundary data, and the control's residual matches what the solver reports: reduced to tolerance when it reports convergence, never larger than without control. The particle velocities then reported are the mean fluid velocity on each surface and are the same on every process.",
     ["inputs", "histories", "configurations", "schedules"], "all particle sets, forces, earlier contents of the vectors; " + SCHED,
     "the tests run one configuration and check one velocity with a loose bound",
     ["cafes/problem/sem.hpp", "cafes/particle/forces_torques.hpp"], [("SEM::solve", "cafes/problem/sem.hpp"), ("get_new_velocities", "cafes/problem/sem.hpp")], ["final field, residual and velocities"])
prop("C09", "Particles with a prescribed rigid motion",
     "For particles with given translation and rotation (no treatment of close pairs) the control operator and right-hand side are those of the stated method: the surface velocity relative to the prescribed motion v + w x r is what the layer corrects. After the solve the fluid field is the one its control produces and the control leaves the residual the solver reports, on any number of processes.",
     ["inputs", "histories", "configurations", "schedules"], "all particle sets, translations, rotations, grids; " + SCHED,
     "no stable test checks a prescribed motion beyond the program finishing",
     ["cafes/problem/dton.hpp", "cafes/problem/particle_operator.hpp"], [("dton_matrix", "cafes/problem/particle_operator.hpp"), ("rigid motion at the surface", "cafes/problem/particle_operator.hpp")], ["operator, right-hand side, final field"])
prop("C10", "Forces and torques are the integral of the control",
     "The force and the torque reported for each particle equal the integral over the particle of the control and of its moment about the centre, taken as the particle's area times the mean over its grid nodes. Every process reports the same values, for any control, particle set, grid and number of processes.",
     ["inputs", "configurations", "schedules"], "all controls, particles, grids, splits; " + SCHED,
     "one test with one particle and a loose bound",
     ["cafes/particle/forces_torques.hpp", "cafes/problem/sem.hpp"], [("forces_torques_with_control", "cafes/particle/forces_torques.hpp")], ["forces and torques on every process"])
prop("C11", "Refined interpolation",
     "Interpolating a field to a grid refined by any factor per direction gives the bilinear interpolant of velocity and pressure at every refined node, wrapping around in periodic directions, on a refined grid of matching size. The result does not depend on the number of processes and the source field is unchanged.",
     ["inputs", "configurations", "schedules"], "all fields, refinement factors, grids; " + SCHED,
     "one test with one factor on one process",
     ["cafes/posttraitement/interpolation.hpp"], [("linear_interpolation", "cafes/posttraitement/interpolation.hpp")], ["refined fields, value by value"])
prop("C12", "Saved fields are complete and correctly described",
     "After a save that reports success the data file holds every velocity and pressure value of the vector in natural order, whatever the number of processes, earlier contents of the file or other saves. The description beside it is well formed and gives, slowest direction first, the true sizes and spacings of both grids, the true shape of both data sets, and references that resolve to them.",
     ["inputs", "histories", "configurations", "schedules"], "all fields, grids, sequences of saves incl. overwriting and refined fields; " + SCHED,
     "the tests never read a saved file",
     ["cafes/io/hdf5.hpp"], [("save_hdf5", "cafes/io/hdf5.hpp"), ("create_xdmf", "cafes/io/hdf5.hpp")], ["files read back independently"])
prop("C13", "A failed save is reported and a crash leaves no misleading files",
     "If any disk operation of a save fails (error, full disk, short write, refused or missing path) then either the files are complete all the same or some process returns an error; success on every process means complete files; when only the description cannot be written, every process returns an error. A process crash at any point leaves earlier file sets intact, never leaves a complete description referring to incomplete data, and does not prevent a later save from succeeding.",
     ["crash_points", "fault_sequences", "schedules", "configurations"], "every disk operation of every process as the place of a fault or crash; " + SCHED,
     "the tests never make a write fail and never crash",
     ["cafes/io/hdf5.hpp"], [("error returns of save_hdf5", "cafes/io/hdf5.hpp"), ("description written after the data", "cafes/io/hdf5.hpp")], ["status on every process; files after faults and crashes"])
prop("C14", "A failing allocation is never silent",
     "When any single memory request made during set-up, a product, a right-hand side, a solve, an interpolation, a save or a particle operation fails on one process, that process reports an error. If instead every process reports success, the results are the correct ones.",
     ["fault_sequences", "programs", "configurations"], "every memory request of every process as the one that fails; programs as in C05",
     "the tests never make an allocation fail",
     ["cafes/problem", "cafes/fem", "cafes/particle", "cafes/petsc"], [("error codes passed on", "cafes/problem/stokes.hpp")], ["status on every process; results after a failure"])
prop("C15", "Results do not depend on history",
     "The result of each operation (product, right-hand side, solve, on a fluid or a particle problem) depends only on that problem and the operation's inputs, not on earlier operations, on other problems alive in the same program, on what work vectors or fresh memory contain, or on reusing the problem's own vectors. Repeating a solve gives the same answer, and a particle problem that is set up again, its particles having moved, behaves as one made afresh.",
     ["histories", "programs", "schedules"], "all sequences of operations on two problems, with particles or without; contents of work vectors and fresh memory; " + SCHED,
     "each test performs one fixed sequence with fresh zeroed memory",
     ["cafes/problem/stokes.hpp", "cafes/problem/context.hpp", "cafes/fem/matrixFree.hpp", "cafes/fem/rhs.hpp"], [("work vectors cleared before use", "cafes/fem/matrixFree.hpp")], ["every operation of the sequence against its reference"])
prop("C16", "Preconditioner blocks and their diagonal",
     "The preconditioner operator is the viscous block (identity on prescribed values) and the pressure mass matrix, in assembled and matrix-free form, and the diagonal it reports is that of the operator (for the assembled form and, on values that are not prescribed, the matrix-free gradient form), positive and finite otherwise. This holds for every grid, spacing, periodicity, set of prescribed components and number of processes.",
     ["inputs", "configurations", "schedules"], "all vectors, grids, spacings, prescribed components; " + SCHED,
     "a wrong preconditioner only changes iteration counts, which no test looks at",
     ["cafes/fem/matrixFree.hpp", "cafes/fem/assembling.hpp", "cafes/problem/stokes.hpp"], [("mass_mult, diag_block_mult, diag_diag_block_mult", "cafes/fem/matrixFree.hpp")], ["products and diagonal, value by value"])

prop("C17", "Close pairs: the lubrication field enters and leaves the problem consistently",
     "With the treatment of close pairs on, the fluid right-hand side gains, for every pair of particles closer than the threshold, the weak form (minus the viscous and plus the pressure term) of the pair's analytic lubrication field over the fluid in the gap, and the control operator stays linear, so that the control leaves the residual the solver reports. The velocity added to the final field is that same divergence-free field, averaged around each node over the fluid. All this holds for any position, size, motion and orientation of the pair and any number of processes.",
     ["inputs", "configurations", "schedules"], "all pairs, gaps, relative motions, orientations, grids; " + SCHED,
     "the one demo with close pairs checks only that it finishes; the field has a different sign and value in every direction",
     ["cafes/particle/singularity/add_singularity.hpp", "cafes/particle/singularity/singularity.hpp", "cafes/particle/singularity/UandPNormal.hpp", "cafes/problem/dton.hpp"], [("add_singularity_in_fluid, add_singularity_to_last_sol", "cafes/particle/singularity/add_singularity.hpp"), ("local frame, cut-off, fields", "cafes/particle/singularity/singularity.hpp"), ("flag that switches the terms on for the right-hand side only", "cafes/problem/dton.hpp")], ["fluid right-hand side, control residual, final field"])
prop("C18", "The library keeps to the processes it is given",
     "A program may give the library only some of the processes of its job, in any order, as PETSC_COMM_WORLD. Every result and saved file is then the one the same program gives alone, and a second program on the other processes, the program's own messages and other processes that do not take part are neither waited for nor disturbed.",
     ["configurations", "schedules", "programs"], "all subsets and orders of processes, programs on the rest, programs as in C05; " + SCHED,
     "every test hands the library all processes of its job in their natural order",
     ["cafes/problem", "cafes/particle", "cafes/fem", "cafes/io", "cafes/posttraitement"], [("sums and broadcasts on PETSC_COMM_WORLD", "cafes/problem/particle_operator.hpp"), ("file opened and described by the given processes", "cafes/io/hdf5.hpp")], ["progress of every process; fields and files against the program alone"])

prop("C19", "Repeated work accumulates nothing",
     "A program may repeat any sequence of operations on its problems (products, right-hand sides, solves, interpolation, saving, particle problems) as often as it likes, as a time loop does. Once the first repetitions have filled what is kept on purpose, no process holds more after a repetition than before it: no memory, open file, communicator or pending request is left behind.",
     ["histories", "programs", "configurations", "schedules"], "all sequences of operations, repeated; " + SCHED,
     "each test performs an operation once or a few times and never looks at what is left behind; a loss shows only after many steps",
     ["cafes/problem", "cafes/particle", "cafes/fem", "cafes/io", "cafes/posttraitement", "cafes/petsc/vec.hpp"], [("local vectors taken and given back", "cafes/petsc/vec.hpp"), ("temporary grids and vectors", "cafes/posttraitement/interpolation.hpp"), ("viewer of a save", "cafes/io/hdf5.hpp")], ["memory blocks and bytes, open files, communicators and requests after each repetition"])
prop("C20", "Memory is used only where and while it is valid",
     "Every read and write the library makes stays inside the vector, array or object it is meant for and within its lifetime, and the integers it computes neither overflow nor come from values that do not fit. This holds for every program of well-formed calls on any grid, split and set of particles, and also after a disk operation or a memory request has failed.",
     ["programs", "configurations", "schedules", "fault_sequences"], "all programs, grids, particle sets, splits and faults of the other properties; " + SCHED,
     "an access just outside a block or to a freed one usually finds plausible values: results and tests do not change until the layout does",
     ["cafes/petsc/vec.hpp", "cafes/fem", "cafes/particle", "cafes/problem", "cafes/posttraitement", "cafes/io"], [("local vectors addressed by grid position", "cafes/petsc/vec.hpp"), ("kernels kept by reference during an iteration", "cafes/algorithm/iterate.hpp"), ("names and arrays handed to PETSc", "cafes/io/hdf5.hpp")], ["every memory access of the library's code, during the simulated runs of all other properties"])

CLAIMED = os.environ.get("CLAIMED", "").split() or [p["id"] for p in P]
COMMON = "Seeded search over simulated parallel jobs: the real library runs in process images released one at a time; every message, collective, disk operation and clock value comes from the simulator. Samples seeds, does not enumerate."
LEVEL = {
 "C05": COMMON + " Reference: the same program on one process under the canonical schedule.",
 "C18": COMMON + " Reference: the same program on one process, all of its job, under the canonical schedule.",
 "C20": COMMON + " The library's code (all headers) is compiled with gcc's address and integer sanitizers; PETSc is not, its heap blocks are guarded all the same.",
 "C12": COMMON + " Files are read back with an independent reader.",
 "C13": COMMON + " One fault plan per run, placed at a uniformly drawn disk operation of the save; crashes are of the whole job, with everything already written surviving (no loss of unsynced data: neither cafes nor HDF5 promises to sync).",
 "C14": COMMON + " One failing PETSc allocation per run, at a drawn request of a drawn process.",
}
DET = "deterministic simulation with fault injection: seeded schedule and fault search over simulated MPI jobs, judged by "
TECH = {
 "C01": "invariants on ownership, ghost values and accumulation", "C02": "comparison with an independent reference operator", "C03": "comparison with an independent reference right-hand side",
 "C04": "comparison with an independent factorised reference solution", "C05": "progress, end-of-job hygiene and refinement of the one-process run", "C06": "comparison with the point sets computed from the particles' definitions",
 "C07": "comparison with an independent reference of the control operator", "C08": "comparison with an independent reference of the final state", "C09": "comparison with an independent reference of the control problem",
 "C10": "comparison with independent integrals", "C11": "comparison with an independent interpolant", "C12": "independent reading of the files left behind", "C13": "disk faults and crashes at drawn operations, files and reports checked afterwards",
 "C14": "failing allocations at drawn requests, reports and results checked afterwards", "C15": "random operation histories, each result compared with its reference", "C16": "comparison with independent reference blocks", "C18": "jobs in which the program holds a drawn part of the processes beside other traffic or a second program, refinement of the program alone", "C19": "counts of what each process holds after each repetition of a drawn script", "C20": "address and integer checks compiled into the library's code, with the runs of all other properties", "C17": "comparison with an independently derived lubrication field and its weak form"}
props = [p for p in P if p["id"] in CLAIMED]
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in props: f.write(json.dumps(p) + "\n")
NA += [
]
man = dict(version=1, setup_cmd="./run.sh build", hooks=dict(guard="none", enable="no hook was added: the simulator interposes MPI, libc I/O, clocks and PETSc's allocator at link time", source_commits=[]),
  checks=[dict(property=p["id"], quick_cmd="./run.sh check %s quick" % p["id"], thorough_cmd="./run.sh check %s thorough" % p["id"], technique=DET + TECH[p["id"]], level="exploration", level_note=LEVEL.get(p["id"], COMMON)) for p in props],
  not_applicable=NA)
json.dump(man, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
