"""writes properties.jsonl and MANIFEST.json (run by hand after changing what is claimed)"""
import json
P = []; NA = []; LEVEL = {}
def p(id, title, statement, over, text, why, files, mech, observe, technique, note, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = state
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
    LEVEL[id] = (technique, note)
def na(id, title, statement, over, text, why, files, mech, observe, reason):
    p(id, title, statement, over, text, why, files, mech, observe, "", "")
    del LEVEL[id]; NA.append({"property": id, "reason": reason})
SEARCH = "deterministic simulation: "
EXPL = "Seeded search, no proof: assurance is that of the number of simulated executions given in the evidence file. "

p("C01", "Meshing gives the same mesh for every schedule and number of threads",
  "For a given sequence of meshing operations (set-up, geometry, refinement and unrefinement sweeps, smoothing, layer splitting, metric computation) the resulting mesh - elements, connections, vertex positions, face warping - is the same for every interleaving of the threads and every number of threads, up to rounding of floating point sums. No interleaving makes an operation hang, crash or fail that succeeds with one thread.",
  ["schedules", "histories", "configurations"], "every interleaving of 1..n threads in every parallel loop of every meshing history",
  "Tests run a handful of meshes with whatever interleaving the OS gives; a lost update or an order-dependent decision shows up in a vanishing fraction of real schedules.",
  ["src/Accessible_mesh.cpp", "include/Accessible_mesh.hpp", "src/Solver_snap_faces.cpp", "src/Boundary_condition.cpp", "include/Lock.hpp", "src/Vertex.cpp"],
  [("refinement, extrusion and deletion sweeps with per-vertex and per-tree locks", "src/Accessible_mesh.cpp"), ("face snapping", "src/Solver_snap_faces.cpp")],
  ["mesh files", "connection validity", "metric terms"],
  SEARCH + "seeded thread schedules, compared with the serial execution",
  EXPL + "Whole meshing histories run under a seeded scheduler that switches threads at instrumented memory accesses, locks and barriers; the final mesh is compared with the serial one as a set of elements and connections. Sequentially consistent interleavings only; basis row sizes 2 and 3.")
p("C02", "Flow solutions are the same for every schedule and number of threads",
  "Advancing a flow on a given mesh from given initial conditions produces the same state, time step, flow time, residuals, integrals, bounds and visualisation data for every interleaving of the threads and every number of threads, up to rounding of floating point sums. No interleaving makes an iteration hang, crash or fail that succeeds with one thread.",
  ["schedules", "configurations", "inputs"], "every interleaving of the threads in every parallel loop, for every physical model, time stepping mode and mesh",
  "Tests check convergence on a few meshes to loose tolerances with uncontrolled scheduling; rare lost updates vanish in the discretisation error.",
  ["src/Solver.cpp", "include/Spatial.hpp", "src/Boundary_condition.cpp", "src/Spacetime_func.cpp", "include/Namespace.hpp", "src/Linearized.cpp"],
  [("parallel kernels over cells, faces and prolonged/restricted faces", "include/Spatial.hpp"), ("reductions of the time step, residuals and bounds", "src/Solver.cpp")],
  ["state", "iteration status", "integrals", "bounds", "visualisation samples"],
  SEARCH + "seeded thread schedules, compared with the serial execution",
  EXPL + "Random meshes and physics are advanced under the same scheduler as C01, with simulated heap layout and contents of fresh memory varied; all outputs are compared with the serial execution. Sequentially consistent interleavings only.")
p("C03", "A whole simulation has the same outcome for every schedule and thread count",
  "Running an input script from start to end gives the same files (mesh, state, visualisation and exported files) and the same printed results for every interleaving of the threads, every number of threads and every placement of objects in memory, up to rounding. A script that succeeds with one thread neither hangs, crashes nor fails with several.",
  ["schedules", "programs", "configurations"], "every interleaving of the threads during a whole simulation driven by an input script",
  "The tests of the case layer run single scripts with uncontrolled scheduling and compare little of their output.",
  ["src/Case.cpp", "include/Case.hil", "src/Solver.cpp", "src/Accessible_mesh.cpp", "include/Visualizer.hpp"],
  [("commands of the case layer", "src/Case.cpp"), ("macros of the run loop", "include/Case.hil")],
  ["files in the working directory", "console output"],
  SEARCH + "seeded thread schedules of whole programs, compared with the serial execution",
  EXPL + "The real program runs whole input scripts in the simulator, serially and under random schedules; output files are compared by content. Sequentially consistent interleavings only; residuals compared to 1e-5 of their scale.")
p("C04", "Every meshing history leaves a valid mesh",
  "After every step of every meshing history (any geometry, refinement criteria, sweeps, smoothing, layer splits; any interleaving) the mesh is consistent: every face of every element is connected exactly once, connected faces share their vertices, neighbours differ by at most one level of refinement, elements and refinement tree agree, there are no gaps at hanging nodes, everything is inside the box and boundary faces lie on the side of the box they belong to. Without geometry the elements fill the box exactly.",
  ["histories", "schedules", "inputs"], "every history of meshing operations under every schedule",
  "Tests build a few meshes with a fixed sequence of operations and check connection counts only.",
  ["src/Accessible_mesh.cpp", "src/Tree.cpp", "src/connection.cpp", "include/connection.hpp", "src/Boundary_condition.cpp"],
  [("refinement and connection sweeps", "src/Accessible_mesh.cpp"), ("refinement tree", "src/Tree.cpp")],
  ["mesh files", "connection validity"],
  SEARCH + "random meshing histories and schedules, invariants checked by an independent reader of the mesh file",
  EXPL + "After every step the mesh is written and an independent reader checks topology, tree, levels and geometry of the file. Element quality is not judged, nor whether the mesh is one connected region.")
p("C05", "A simulation killed at any moment leaves complete checkpoints",
  "If the process is killed at any moment, every mesh or state file whose writing had been reported as done is complete and correct, and the `latest` links name complete files which fit together and are never older than the last files reported as done. No file under its final checkpoint name or reachable through a link is ever partly written.",
  ["crash_points", "histories"], "every system call (and every position within a write) at which the process can be killed, for every simulation",
  "No test kills the program.",
  ["src/Solver.cpp", "src/Accessible_mesh.cpp", "src/Case.cpp", "include/Case.hil"],
  [("writing of checkpoint files and links", "src/Case.cpp"), ("mesh and state file writers", "src/Accessible_mesh.cpp")],
  ["files in the working directory", "latest.mesh.h5, latest.state.h5", "console output"],
  SEARCH + "process kills at seeded system calls, checkpoints judged from the surviving files",
  EXPL + "A kill loses the process, not the page cache: the program never calls fsync and survival of power failures is not claimed. One known finding (the two links cannot be replaced in one step) is listed.")
p("C06", "Checkpoints are never reported as written when they are not",
  "Whatever errors the operating system returns while mesh files, state files or exported PolyMesh files are being written, the program does not report success or `done` for a file that is incomplete or wrong: either the files are identical to those of an undisturbed run, or the run ends with an error. It never crashes, hangs or ends by a signal because of such an error.",
  ["fault_sequences", "histories"], "every system call that modifies a file, and every error (once, for a while, or permanently for one file)",
  "No test injects an error into a system call.",
  ["src/Solver.cpp", "src/Accessible_mesh.cpp", "src/Case.cpp", "include/Case.hil"],
  [("mesh, state and PolyMesh writers", "src/Accessible_mesh.cpp"), ("reporting", "include/Case.hil")],
  ["exit status", "console output", "files in the working directory"],
  SEARCH + "seeded failing system calls, files compared with those of the undisturbed run",
  EXPL + "Visualisation files are excluded: the XDMF library does not report write errors.")
p("C07", "A restarted simulation continues where it left off",
  "A simulation that was interrupted at any moment and restarted from its mesh and state files - the latest, or those of any iteration written - goes through the same states as the uninterrupted one, up to rounding, iteration by iteration, also when this is repeated.",
  ["crash_points", "histories", "configurations"], "every interruption and every chain of restarts, for every simulation",
  "Tests write and read one small mesh and state and compare them directly; none continues a simulation.",
  ["src/Solver.cpp", "src/Accessible_mesh.cpp", "src/Case.cpp", "include/Case.hil"],
  [("reading mesh and state files", "src/Accessible_mesh.cpp"), ("restart commands", "src/Case.cpp")],
  ["mesh and state files of the restarted session"],
  SEARCH + "kills at seeded system calls, chains of restarts, refinement against the uninterrupted execution",
  EXPL + "States are compared to 1e-9 of their scale. Quantities that are not stored (ramps of the initial phase, pseudotime histories) are kept out of the generated cases.")
p("C08", "A fault in a session never damages the checkpoints of an earlier one",
  "Files reported as written by earlier sessions stay readable and unchanged whatever happens in a later session that continues in the same directory (kill, failing system calls, failing allocations), unless that session itself completely rewrites the file of the same iteration. At every moment a user can restart from some complete mesh and state.",
  ["crash_points", "fault_sequences", "histories"], "every fault in a second session in the same directory",
  "No test runs two sessions or injects faults.",
  ["src/Case.cpp", "src/Solver.cpp", "src/Accessible_mesh.cpp", "include/Case.hil"],
  [("replacement of checkpoint files and links", "src/Case.cpp")],
  ["files in the working directory"],
  SEARCH + "seeded faults in the second of two sessions, files judged against those of the first",
  EXPL + "How the program ends after a failed memory allocation is not judged, only the files are.")
p("C09", "Damaged or foreign input never crashes the program nor passes as valid",
  "Starting or restarting with mesh, state, geometry or script files that are missing, empty, truncated, of another kind, of another simulation or with damaged values either ends with an error message or runs properly on the input as it is: no crash, no signal, no endless reading. Input which is recognisably not valid (missing, empty or truncated mesh and state files, files lacking a part, mesh and state that do not fit each other, CSV rows of different length or with malformed numbers) is rejected.",
  ["inputs", "fault_sequences"], "every damage to an input file",
  "Tests read well-formed files.",
  ["src/Accessible_mesh.cpp", "src/Solver.cpp", "src/read_csv.cpp", "src/Case.cpp"],
  [("mesh and state readers", "src/Accessible_mesh.cpp"), ("CSV reader", "src/read_csv.cpp")],
  ["exit status", "console output"],
  SEARCH + "seeded damage to the stored input between two sessions",
  EXPL + "Damage to the internal structure of an HDF5 file other than truncation is the business of the HDF5 library and not simulated.")
p("C10", "Runtime commands are executed once each, and mistakes in them are harmless",
  "Every line of commands delivered to the runtime command file at any moment before the last check of it is executed exactly once and in the order of delivery, also when commands before it are wrong. A mistake in a runtime command is reported and neither ends the simulation nor changes its result.",
  ["schedules", "programs", "fault_sequences"], "every moment of delivery, every mistake",
  "No test delivers runtime commands.",
  ["include/Case.hil", "src/Interpreter.cpp", "src/Case.cpp"],
  [("taking away and executing the command file", "include/Case.hil"), ("exceptions of the interpreter", "src/Interpreter.cpp")],
  ["console output", "final state"],
  SEARCH + "a simulated user delivers commands at seeded system calls; exactly-once and order checked over the output",
  EXPL + "Delivery of a file of commands is atomic (by rename). Statements with unbalanced braces are excluded.")
p("C11", "Clock jumps, stalls and partial transfers do not change a simulation",
  "The files a simulation writes, its results and its end do not depend on jumps of the system clock, on stalls, nor on reads and writes being partial or interrupted. The reported wall time counts the time that really passed and never goes backwards, and a limit on it takes effect within one printing interval of being reached.",
  ["fault_sequences", "schedules"], "every sequence of clock jumps, stalls, partial transfers and interrupts",
  "Tests run with an undisturbed clock.",
  ["src/Case.cpp", "include/Stopwatch_tree.hpp", "src/Stopwatch.cpp", "include/Case.hil"],
  [("wall time", "src/Case.cpp"), ("stopwatches", "src/Stopwatch.cpp")],
  ["wall_time", "console output", "files in the working directory"],
  SEARCH + "seeded clock jumps, stalls, short transfers and interrupts, compared with the undisturbed execution",
  EXPL + "The steady clock itself is assumed to be monotonic.")
p("C12", "A failing read of an input file is never taken for a shorter file",
  "If opening or reading an input file (script, geometry, mesh, state, runtime commands) fails at any moment, the program ends with an error or reports it, or it produces exactly the results of an undisturbed run. Partial and interrupted reads change nothing.",
  ["fault_sequences"], "every read of an input file and every error of it",
  "No test injects an error into a read.",
  ["src/Interpreter.cpp", "src/read_csv.cpp", "src/Accessible_mesh.cpp", "src/Solver.cpp", "src/Occt.cpp", "include/Case.hil"],
  [("reading scripts", "src/Interpreter.cpp"), ("CSV reader", "src/read_csv.cpp")],
  ["exit status", "console output", "files in the working directory"],
  SEARCH + "seeded failing, partial and interrupted reads, compared with the undisturbed execution",
  EXPL + "The STL reader of OpenCASCADE is a known finding. Files of the standard library of the language are not simulated.")
p("C13", "Mistakes in an interactive session never end it nor corrupt later input",
  "In an interactive session every statement that follows any number of mistakes is executed as if they had not been made, each mistake is reported, and variables keep the values given by the statements that succeeded. The session ends if and only if the user quits or the input ends.",
  ["programs", "histories"], "every sequence of statements, mistakes and ends of input",
  "The tests of the interpreter do not run the interactive loop.",
  ["src/Interpreter.cpp", "include/builtin.hil", "src/hil.cpp", "src/Case.cpp"],
  [("interactive loop", "include/builtin.hil"), ("exceptions of the interpreter", "src/Interpreter.cpp")],
  ["console output", "exit status"],
  SEARCH + "seeded sessions with mistakes and ends of input at random points, checked against a small reference model",
  EXPL + "Statements with unbalanced braces or parentheses are excluded: the language cannot tell where they end.")
p("C14", "Visualisation files reported as done are complete and stay so",
  "If the process is killed or system calls fail at any moment after a visualisation was reported as done, its files are complete, refer only to data that exists with the sizes stated, contain the data of that iteration, and the `latest` copies name a complete set.",
  ["crash_points", "fault_sequences"], "every system call at which the process can be killed or that can fail after a visualisation",
  "No test kills the program or injects errors.",
  ["include/Visualizer.hpp", "src/Xdmf_wrapper.cpp", "src/Case.cpp", "include/Case.hil", "src/Solver.cpp"],
  [("visualisation writer", "src/Xdmf_wrapper.cpp"), ("visualisation macros", "include/Case.hil")],
  ["*.xmf and *.h5 visualisation files", "console output"],
  SEARCH + "kills and failing system calls at seeded moments, visualisation files judged from what survives",
  EXPL + "Errors of the write itself are not judged (the XDMF library hides them), nor is the set being written at the moment of the kill.")
p("C15", "A uniform flow stays uniform on every valid mesh",
  "On every mesh a meshing history can produce (curved and deformed elements, hanging nodes, layers, splits made while the flow advances), with freestream at all boundaries, a uniform flow is preserved by every time stepping mode and physical model to within rounding, under every interleaving of the threads.",
  ["histories", "schedules", "configurations"], "every mesh history, physical model and schedule",
  "Tests check preservation of uniform flow on a few hand-built meshes.",
  ["src/Solver.cpp", "include/Spatial.hpp", "src/Accessible_mesh.cpp", "src/Deformed_element.cpp", "src/Boundary_condition.cpp"],
  [("metric terms", "src/Solver.cpp"), ("kernels", "include/Spatial.hpp")],
  ["state"],
  SEARCH + "random mesh histories and schedules, conservation of a uniform state checked",
  EXPL + "Meshes with inverted or nearly inverted elements are not judged (volume ratio outside 1/50..50).")
p("C16", "A closed box conserves mass and energy",
  "In a box whose boundaries are all impermeable (and, for viscous flow, insulated), the integrals of mass and energy do not change in time by more than rounding, for any mesh a meshing history can produce, any flow, any physical model, any time stepping that is uniform in space, and any interleaving of the threads, also after layers of the mesh were split while the flow advanced.",
  ["histories", "schedules", "configurations"], "every mesh history, initial flow, physical model and schedule",
  "Tests check conservation on single meshes with a few settings.",
  ["src/Solver.cpp", "include/Spatial.hpp", "src/Boundary_condition.cpp", "src/kernels_convective.cpp", "src/kernels_diffusive.cpp"],
  [("numerical fluxes on conforming and hanging faces", "include/Spatial.hpp"), ("boundary conditions", "src/Boundary_condition.cpp")],
  ["integrals over the domain"],
  SEARCH + "random mesh histories, flows and schedules, conservation checked at every iteration",
  EXPL + "Meshes with inverted or nearly inverted elements and flows that become inadmissible are not judged.")

na("C90", "The discretisation converges at the design order",
  "For smooth exact solutions the error decreases with the mesh size at the order given by the basis, for every equation solved.",
  ["inputs", "configurations"], "every smooth solution, basis and mesh family", "Tests measure the order for a few solutions.",
  ["include/Spatial.hpp", "include/Gauss_legendre.hpp", "include/Gauss_lobatto.hpp"], [("kernels", "include/Spatial.hpp")], ["state"],
  "The order of accuracy is a property of a pure function of the input: no schedule, clock, I/O or fault takes part in it, so simulation has nothing to decide (independence of the schedule is C02).")
na("C91", "Arithmetic and control flow of the input language follow its documentation",
  "Every expression of the input language evaluates to the value its documentation gives, whatever its operators, types and nesting.",
  ["programs"], "every expression", "Tests evaluate a fixed list of expressions.",
  ["src/Interpreter.cpp", "include/builtin.hil"], [("expression evaluation", "src/Interpreter.cpp")], ["values of variables"],
  "Evaluation of an expression is a sequential pure function without time, I/O or other parties (what mistakes and the end of the input do to a session is C13, and to a running simulation C10).")
na("C92", "Geometry queries return the nearest point and all intersections",
  "For every geometry and query point or line the nearest point and the set of intersections are those of exact geometry up to rounding.",
  ["inputs"], "every geometry and query", "Tests check a few shapes.",
  ["include/Simplex_geom.hpp", "src/Surface_geom.cpp", "src/Occt.cpp"], [("nearest point search", "include/Simplex_geom.hpp")], ["nearest points", "intersections"],
  "A query is a pure function of geometry and point; no schedule, clock, I/O or fault takes part in it.")
na("C93", "Basis matrices, quadrature and math utilities are exact to rounding",
  "Interpolation, differentiation, projection and quadrature operators are exact for polynomials of the degree they claim, and the math utilities return what they document, for all arguments.",
  ["inputs"], "every basis size and argument", "Tests sample arguments.",
  ["include/Basis.hpp", "include/Gauss_legendre.hpp", "include/Gauss_lobatto.hpp", "include/math.hpp"], [("generated tables", "include/Gauss_legendre.hpp")], ["operators"],
  "Tables and pure functions: no schedule, clock, I/O or fault takes part in them.")

if __name__ == "__main__":
    import os
    here = os.path.dirname(os.path.abspath(__file__))
    open(here + "/properties.jsonl", "w").writelines(json.dumps(x) + "\n" for x in P)
    M = {"version": 1, "setup_cmd": "python3 build.py",
         "hooks": {"guard": "HEXED_VERIF_SIM", "enable": "build.py compiles every source of /repo with -DHEXED_VERIF_SIM; no hook was needed, because every seam is at the interface to the compiler runtime, libc, libstdc++ and libgomp", "source_commits": []},
         "checks": [{"property": x["id"], "quick_cmd": "python3 check.py %s --tier quick" % x["id"], "thorough_cmd": "python3 check.py %s --tier thorough" % x["id"], "evidence_file": "evidence/%s.json" % x["id"],
                     "technique": LEVEL[x["id"]][0], "level": "exploration", "level_note": LEVEL[x["id"]][1]} for x in P if x["id"] in LEVEL],
         "not_applicable": NA, "notes": "The commits in /repo are repairs of defects the checks found (see known_findings.jsonl); none is a hook."}
    json.dump(M, open(here + "/MANIFEST.json", "w"), indent=1)
