From 2e0b0c0ebab1297eba4c15f57bd76b20615d12af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:23 +0000
Subject: [PATCH 01/16] fix: make deletion of bad extrusions independent of
 thread schedule

---
 src/Accessible_mesh.cpp | 43 ++++++++++++++++++-----------------------
 1 file changed, 19 insertions(+), 24 deletions(-)

diff --git a/src/Accessible_mesh.cpp b/src/Accessible_mesh.cpp
index 1e52e0d..35e023f 100644
--- a/src/Accessible_mesh.cpp
+++ b/src/Accessible_mesh.cpp
@@ -887,6 +887,9 @@ bool is_def(Element& elem)
 }
 
 // delete elements that would create pathological extrusion topology
+// To make the result independent of the order in which threads process the elements, decisions in each sweep
+// are based only on the elements that exist at the beginning of the sweep.
+// Elements that shall be deleted are marked with a record of 4 (which still counts as existing) and only actually deleted at the end of the sweep.
 void Accessible_mesh::delete_bad_extrusions()
 {
   int nd = params.n_dim;
@@ -901,6 +904,11 @@ void Accessible_mesh::delete_bad_extrusions()
       #pragma omp atomic read
       record = elem.record;
       if (elem.tree && record != 2) {
+        // (`exists` because elements that are already deleted must not come back into existence)
+        auto mark = [](Element* e) {
+          #pragma omp atomic write
+          e->record = 4;
+        };
         bool exposed [6];
         for (int i_face = 0; i_face < 2*nd; ++i_face) {
           // if any hanging-node face is partially covered by fine elements, delete the fine elements
@@ -910,10 +918,7 @@ void Accessible_mesh::delete_bad_extrusions()
           if (neighbors.size() > 1) {
             if (std::any_of(neighbors.begin(), neighbors.end(), exists) && !all_exist) {
               changed = true;
-              for (Tree* n : neighbors) if (n->elem) {
-                #pragma omp atomic write
-                n->elem->record = 2;
-              }
+              for (Tree* n : neighbors) if (exists(n)) mark(n->elem);
             }
           }
           // for all faces that share an edge with `i_face` (but only the ones with lower index to avoid redundancy)
@@ -929,12 +934,8 @@ void Accessible_mesh::delete_bad_extrusions()
                   // If they have the same refinement level, delete both
                   if (n->refinement_level() >= elem.refinement_level()) {
                     changed = true;
-                    #pragma omp atomic write
-                    n->elem->record = 2;
-                    if (n->refinement_level() == elem.refinement_level()) {
-                      #pragma omp atomic write
-                      elem.record = 2;
-                    }
+                    mark(n->elem);
+                    if (n->refinement_level() == elem.refinement_level()) mark(&elem);
                   }
                 }
                 for (int k_face = 0; k_face < 2*(j_face/2); ++k_face) if (exposed[k_face]) {
@@ -944,12 +945,8 @@ void Accessible_mesh::delete_bad_extrusions()
                   for (Tree* n : neighbs) if (exists(n)) {
                     if (n->refinement_level() >= elem.refinement_level()) {
                       changed = true;
-                      #pragma omp atomic write
-                      n->elem->record = 2;
-                      if (n->refinement_level() == elem.refinement_level()) {
-                        #pragma omp atomic write
-                        elem.record = 2;
-                      }
+                      mark(n->elem);
+                      if (n->refinement_level() == elem.refinement_level()) mark(&elem);
                     }
                   }
                 }
@@ -958,12 +955,7 @@ void Accessible_mesh::delete_bad_extrusions()
                 if (  !std::all_of(diag_neighbs.begin(), diag_neighbs.end(), exists)
                     && std::any_of(diag_neighbs.begin(), diag_neighbs.end(), exists)) {
                   changed = true;
-                  for (Tree* n : diag_neighbs) {
-                    if (n->elem) {
-                      #pragma omp atomic write
-                      n->elem->record = 2;
-                    }
-                  }
+                  for (Tree* n : diag_neighbs) if (exists(n)) mark(n->elem);
                 }
               }
             }
@@ -996,13 +988,16 @@ void Accessible_mesh::delete_bad_extrusions()
             }
             if (bad) {
               changed = true;
-              #pragma omp atomic write
-              elem.record = 2;
+              mark(&elem);
             }
           }
         }
       }
     }
+    #pragma omp parallel for
+    for (int i_elem = 0; i_elem < elems.size(); ++i_elem) {
+      if (elems[i_elem].record == 4) elems[i_elem].record = 2;
+    }
   } while (changed);
 }
 
-- 
2.43.0


From b0c59a452c219d6b31843693512e19954f2c7339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:23 +0000
Subject: [PATCH 02/16] fix: pass (un)refinement requests and deletions through
 extruded layers in a definite order

---
 src/Accessible_mesh.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/Accessible_mesh.cpp b/src/Accessible_mesh.cpp
index 35e023f..37940cc 100644
--- a/src/Accessible_mesh.cpp
+++ b/src/Accessible_mesh.cpp
@@ -1144,11 +1144,12 @@ bool Accessible_mesh::update(std::function<bool(Element&)> refine_criterion, std
     else if (unref && !ref) elem.record = -1;
     elem.set_needs_smooth(false);
   }
-  // pass refinement requests of extruded elements to their extrusion parents
-  #pragma omp parallel for
-  for (auto con : extrude_cons) {
+  // pass refinement requests of extruded elements to their extrusion parents.
+  // Not parallel because the result depends on the order, both if one element has several extruded neighbors and if there are several layers.
+  // Go backward so that, if there are several layers, the requests of the outer ones are passed all the way to the tree element.
+  for (auto it = extrude_cons.rbegin(); it != extrude_cons.rend(); ++it) {
+    auto con = *it;
     auto& inside = con->element(1);
-    Lock::Acquire a(inside.lock);
     if (inside.record == 0) inside.record = con->element(0).record;
     else inside.record = std::max(inside.record, con->element(0).record);
     inside.unrefinement_locked = inside.unrefinement_locked || con->element(0).unrefinement_locked;
@@ -1294,7 +1295,6 @@ bool Accessible_mesh::update(std::function<bool(Element&)> refine_criterion, std
   delete_bad_extrusions();
   deform();
   // delete extruded elements
-  #pragma omp parallel for
   for (auto con : extrude_cons) {
     bool del = false;
     if (con->element(1).record == 2) del = true;
-- 
2.43.0


From ffe2d3101b68bfba2db686b86b3ecaed4666c86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:51 +0000
Subject: [PATCH 03/16] fix: restore the flow state on the faces after a
 Jacobian computation and after reading a state file

Both left unrelated data in the face storage, so a restarted simulation, or one whose mesh was split
or refined while running, took its next step with meaningless numerical fluxes.
---
 src/Solver.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Solver.cpp b/src/Solver.cpp
index 996294d..a9f8b02 100644
--- a/src/Solver.cpp
+++ b/src/Solver.cpp
@@ -247,6 +247,8 @@ void Solver::read_state(std::string file_name)
     dspace.selectHyperslab(H5S_SELECT_SET, elem_dims, offset, stride, block);
     dset.read(elems[i_elem].state(), dset.getDataType(), mspace, dspace);
   }
+  compute_write_face(_kernel_mesh());
+  compute_prolong(_kernel_mesh());
 }
 
 void Solver::write_state(std::string file_name)
@@ -378,6 +380,9 @@ void Solver::calc_jacobian(bool snap)
     }
   }
   share_vertex_data(&Element::vertex_time_step_scale, Vertex::vector_min);
+  // the face storage was used as scratch space above, so put the flow state back in it
+  compute_write_face(_kernel_mesh());
+  compute_prolong(_kernel_mesh());
 }
 
 void Solver::initialize(const Spacetime_func& func)
-- 
2.43.0


From 1bc0d4111690850e1cf42dd134de261c7347170b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:46 +0000
Subject: [PATCH 04/16] fix: replace the links to the latest mesh and state
 files in one step

---
 src/Case.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/Case.cpp b/src/Case.cpp
index a7c4e02..edeac02 100644
--- a/src/Case.cpp
+++ b/src/Case.cpp
@@ -80,8 +80,12 @@ std::string Case::_iteration_suffix()
 
 void force_symlink(const std::filesystem::path& target, const std::filesystem::path& link)
 {
-  if (std::filesystem::exists(link)) std::filesystem::remove(link);
-  std::filesystem::create_symlink(target, link);
+  // replace the link in one step, so that there is always a valid one even if the program is killed
+  std::filesystem::path temp = link;
+  temp += ".tmp";
+  std::filesystem::remove(temp);
+  std::filesystem::create_symlink(target, temp);
+  std::filesystem::rename(temp, link);
 }
 
 std::vector<Flow_bc*> Case::_make_extremal_bcs()
-- 
2.43.0


From 6e32f67b38d07624bf972ed35de0ab1a17fe5a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:46 +0000
Subject: [PATCH 05/16] fix: do not truncate an existing mesh or state file
 before its replacement is complete

---
 src/Case.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/Case.cpp b/src/Case.cpp
index edeac02..7d2d8ff 100644
--- a/src/Case.cpp
+++ b/src/Case.cpp
@@ -328,13 +328,19 @@ Case::Case(std::string input_script)
   }));
   _inter.variables->create<int>("write_mesh", new Namespace::Heisenberg<int>([this]() {
     std::string file_name = _vars("working_dir").value() + _iteration_suffix();
-    _solver().mesh().write(file_name);
+    // a file must not appear under (or replace) its final name until it is complete
+    std::string temp_name = _vars("working_dir").value() + "incomplete";
+    _solver().mesh().write(temp_name);
+    std::filesystem::rename(temp_name + ".mesh.h5", file_name + ".mesh.h5");
     force_symlink(_iteration_suffix() + ".mesh.h5", _vars("working_dir").value() + "latest.mesh.h5");
     return 0;
   }));
   _inter.variables->create<int>("write_state", new Namespace::Heisenberg<int>([this]() {
     std::string file_name = _vars("working_dir").value() + _iteration_suffix();
-    _solver().write_state(file_name);
+    // a file must not appear under (or replace) its final name until it is complete
+    std::string temp_name = _vars("working_dir").value() + "incomplete";
+    _solver().write_state(temp_name);
+    std::filesystem::rename(temp_name + ".state.h5", file_name + ".state.h5");
     force_symlink(_iteration_suffix() + ".state.h5", _vars("working_dir").value() + "latest.state.h5");
     return 0;
   }));
-- 
2.43.0


From 6fffe72e8c6f1526bb9f72dfd8cbe00e909f4407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:06 +0000
Subject: [PATCH 06/16] fix: report failure to write a mesh or state file

---
 src/Accessible_mesh.cpp | 2 ++
 src/Solver.cpp          | 1 +
 2 files changed, 3 insertions(+)

diff --git a/src/Accessible_mesh.cpp b/src/Accessible_mesh.cpp
index 37940cc..d4be8f7 100644
--- a/src/Accessible_mesh.cpp
+++ b/src/Accessible_mesh.cpp
@@ -1629,6 +1629,7 @@ void Accessible_mesh::write(std::string name)
       return my_row;
     };
     write_tree(tree.get());
+    file.flush(H5F_SCOPE_LOCAL); // any failure to write must be reported, but destructors do not throw
   }
   // write face warping
   file.createGroup("/elements/face_warping");
@@ -1643,6 +1644,7 @@ void Accessible_mesh::write(std::string name)
     h5_write_value(ind_dset, i_elem, elem.record);
     h5_write_row(adj_dset, dims[1], i_elem, elem.node_adjustments());
   }
+  file.flush(H5F_SCOPE_LOCAL);
 }
 
 void Accessible_mesh::read_file(std::string file_name)
diff --git a/src/Solver.cpp b/src/Solver.cpp
index a9f8b02..93a7db3 100644
--- a/src/Solver.cpp
+++ b/src/Solver.cpp
@@ -270,6 +270,7 @@ void Solver::write_state(std::string file_name)
     dspace.selectHyperslab(H5S_SELECT_SET, elem_dims, offset, stride, block);
     dset.write(elems[i_elem].state(), H5::PredType::NATIVE_DOUBLE, mspace, dspace);
   }
+  file.flush(H5F_SCOPE_LOCAL); // any failure to write must be reported, but destructors do not throw
 }
 
 void Solver::calc_jacobian(bool snap)
-- 
2.43.0


From fcf1fcc6d8ceace4e98e674ba43220466a4013ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:44 +0000
Subject: [PATCH 07/16] fix: report failure to write a polyMesh file

---
 src/Accessible_mesh.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Accessible_mesh.cpp b/src/Accessible_mesh.cpp
index d4be8f7..8edb828 100644
--- a/src/Accessible_mesh.cpp
+++ b/src/Accessible_mesh.cpp
@@ -1821,6 +1821,8 @@ void write_polymesh_file(std::string dir_name, std::string name, std::string cls
     << "\n" << n_entries << "\n(\n";
   for (int i_entry = 0; i_entry < n_entries; ++i_entry) file << "    " << entries(i_entry) << "\n";
   file << ")\n";
+  file.close();
+  HEXED_ASSERT(file, format_str(1000, "failed to write file `%s%s`", dir_name.c_str(), name.c_str()));
 }
 
 void Accessible_mesh::export_polymesh(std::string dir_name)
-- 
2.43.0


From 46412bcd1352b293a6849968f199848e374d69c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:44 +0000
Subject: [PATCH 08/16] fix: refuse to export a PolyMesh that is not 3D instead
 of accessing memory out of bounds

---
 src/Accessible_mesh.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Accessible_mesh.cpp b/src/Accessible_mesh.cpp
index 8edb828..63fece8 100644
--- a/src/Accessible_mesh.cpp
+++ b/src/Accessible_mesh.cpp
@@ -1827,6 +1827,7 @@ void write_polymesh_file(std::string dir_name, std::string name, std::string cls
 
 void Accessible_mesh::export_polymesh(std::string dir_name)
 {
+  HEXED_ASSERT(params.n_dim == 3, "PolyMesh export is only supported in 3D");
   dir_name = dir_name + "polyMesh/";
   if (std::filesystem::exists(dir_name)) std::filesystem::remove_all(dir_name);
   std::filesystem::create_directory(dir_name);
-- 
2.43.0


From 7998fc4158ddcc9343521139afc4dc9b85039a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:06 +0000
Subject: [PATCH 09/16] fix: do not lose runtime commands, and survive any
 number of mistakes in them

Commands written to runtime_cmd.hil between reading and emptying it, or before the start of the simulation, were erased without being executed.
A second mistake in the same commands terminated the simulation.
---
 include/Case.hil    | 13 ++++++++++---
 src/Interpreter.cpp | 28 ++++++++++++++++------------
 2 files changed, 26 insertions(+), 15 deletions(-)

diff --git a/include/Case.hil b/include/Case.hil
index 38c2f3e..e57d22a 100644
--- a/include/Case.hil
+++ b/include/Case.hil
@@ -265,6 +265,9 @@ print_iter = {
     $$({case} + (iteration != 1))
 }
 
+{report mistakes in runtime commands (there might be several) and continue}
+runtime_except = {println exception; except = runtime_except}
+
 iterate = {
     update
     {compute initial residual for normalization}
@@ -279,9 +282,13 @@ iterate = {
     $print_iter
     $write_iter
     $vis_iter
+    {take the commands away before reading them, so that commands which arrive in the meantime are executed next time}
+    runtime_cmd = working_dir + {runtime_cmd.hil}
+    shell({rm -f } + runtime_cmd + {.run; mv } + runtime_cmd + { } + runtime_cmd + {.run; : >> } + runtime_cmd)
+    except = runtime_except
+    $(read(runtime_cmd + {.run}))
     except = {println exception}
-    $(read(working_dir + {runtime_cmd.hil}))
-    shell({echo > } + working_dir + {runtime_cmd.hil})
+    shell({rm -f } + runtime_cmd + {.run})
 }
 
 start = {
@@ -339,7 +346,7 @@ run = {
     $write_init
     $vis_init
     $print_init
-    shell({echo > } + working_dir + {runtime_cmd.hil})
+    shell({: >> } + working_dir + {runtime_cmd.hil})
     while = {!($done)}
     do = {$iterate}
     $loop
diff --git a/src/Interpreter.cpp b/src/Interpreter.cpp
index da03e60..d505ca1 100644
--- a/src/Interpreter.cpp
+++ b/src/Interpreter.cpp
@@ -362,19 +362,23 @@ void Interpreter::exec(std::string comms)
   Lock::Acquire a(_lock);
   _text.assign(comms.begin(), comms.end());
   _text.push_back('\0');
-  try {
-    _eval(std::numeric_limits<int>::max() - 1);
-  } catch (const Hil_exception& e) {
-    std::string except = variables->lookup<std::string>("except").value();
-    std::string message = "Hexed Interface Language exception (in `hexed::Interpreter`):\n    " + std::string(e.what()) + "\n" + _debug_info();
-    if (!except.empty()) {
-      variables->assign<std::string>("exception", message);
-      _skip_spaces();
-      while (_more() && (_text.front() != '\n' && _text.front() != ';')) _pop();
-      except = except + "; exception = {}; except = {};";
-      _text.insert(_text.begin(), except.begin(), except.end());
+  while (true) {
+    try {
       _eval(std::numeric_limits<int>::max() - 1);
-    } else throw Hil_unhandled_exception(message);
+      break;
+    } catch (const Hil_exception& e) {
+      std::string except = variables->lookup<std::string>("except").value();
+      std::string message = "Hexed Interface Language exception (in `hexed::Interpreter`):\n    " + std::string(e.what()) + "\n" + _debug_info();
+      if (!except.empty()) {
+        variables->assign<std::string>("exception", message);
+        // handler could set `except` again to handle further exceptions
+        variables->assign<std::string>("except", "");
+        _skip_spaces();
+        while (_more() && (_text.front() != '\n' && _text.front() != ';')) _pop();
+        except = except + "; exception = {};";
+        _text.insert(_text.begin(), except.begin(), except.end());
+      } else throw Hil_unhandled_exception(message);
+    }
   }
   _text.clear();
 }
-- 
2.43.0


From bb6aa74899f0d1ff5c67b8bf745b6d9633ccf3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:11 +0000
Subject: [PATCH 10/16] fix: report mistakes in HIL code as exceptions which
 can be handled instead of crashing

Integer division by zero, out-of-range string indices, assigning a value of the wrong type, and errors reading a file.
---
 src/Interpreter.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/Interpreter.cpp b/src/Interpreter.cpp
index d505ca1..0e22d05 100644
--- a/src/Interpreter.cpp
+++ b/src/Interpreter.cpp
@@ -117,9 +117,13 @@ Interpreter::_Dynamic_value Interpreter::_eval(int precedence)
           // variable assignment
           _pop();
           val = _eval(std::numeric_limits<int>::max() - 2);
-          if (val.i) variables->assign(n, *val.i);
-          if (val.d) variables->assign(n, *val.d);
-          if (val.s) variables->assign(n, *val.s);
+          try {
+            if (val.i) variables->assign(n, *val.i);
+            if (val.d) variables->assign(n, *val.d);
+            if (val.s) variables->assign(n, *val.s);
+          } catch (const std::runtime_error& e) { // type mismatch
+            throw Hil_exception(e.what());
+          }
         } else {
           // variable lookup
           HEXED_ASSERT(variables->exists_recursive(n), format_str(1000, "undefined variable `%s`", n.c_str()), Hil_exception);
@@ -159,9 +163,17 @@ Interpreter::_Dynamic_value Interpreter::_eval(int precedence)
 
 template<> int Interpreter::_pow<int>(int op0, int op1) {return math::pow(op0, op1);}
 
+template<> int Interpreter::_div<int>(int op0, int op1)
+{
+  HEXED_ASSERT(op1 != 0, "integer division by zero", Hil_exception);
+  return op1 == -1 ? int(-(unsigned)op0) : op0/op1; // avoid trap if `op0` is the most negative `int`
+}
+
 Interpreter::_Dynamic_value Interpreter::_mod(Interpreter::_Dynamic_value o0, Interpreter::_Dynamic_value o1)
 {
   HEXED_ASSERT(o0.i && o1.i, "binary operator `%` only accepts integers", Hil_exception);
+  HEXED_ASSERT(*o1.i != 0, "integer division by zero", Hil_exception);
+  if (*o1.i == -1) return _Dynamic_value(0); // avoid overflow
   _Dynamic_value v;
   v.i = *o0.i%*o1.i;
   return v;
@@ -271,7 +283,7 @@ Interpreter::Interpreter(std::vector<std::string> preload) :
     {"abs", [](_Dynamic_value val) {
       if      (val.i) *val.i = std::abs(*val.i);
       else if (val.d) *val.d = std::abs(*val.d);
-      else HEXED_ASSERT(false, "unary operator `abs` requires numeric argument")
+      else HEXED_ASSERT(false, "unary operator `abs` requires numeric argument", Hil_exception)
       return val;
     }},
     {"read", [this](_Dynamic_value val) {
@@ -282,6 +294,7 @@ Interpreter::Interpreter(std::vector<std::string> preload) :
       str.s = "";
       char c;
       while (file.get(c)) str.s->push_back(c);
+      HEXED_ASSERT(!file.bad(), format_str(1000, "failed to read file `%s`", (*val.s).c_str()), Hil_exception);
       file.close();
       return str;
     }},
@@ -301,6 +314,7 @@ Interpreter::Interpreter(std::vector<std::string> preload) :
     {"^" , {1, _arithmetic_op<_pow<double>, _pow<int>>}}, // note: 0 is for unary ops
     {"#" , {1, [this](_Dynamic_value str, _Dynamic_value i) {
       HEXED_ASSERT(str.s && i.i, "firt operand of binary `#` must be `string` and second must be `int`", Hil_exception);
+      HEXED_ASSERT(*i.i >= 0 && *i.i < int(str.s->size()), "index of binary `#` is out of range", Hil_exception);
       return _Dynamic_value(std::string(1, (*str.s)[*i.i]));
     }}},
     {"%" , {2, _mod}},
-- 
2.43.0


From 345f58d67cb6288a397f5249d3f8bb2b876b6590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:11 +0000
Subject: [PATCH 11/16] fix: end the REPL when its input ends, and survive any
 number of mistakes in it

The REPL repeated its prompt forever at the end of the input.
---
 doc/hil.dox         | 5 +++++
 include/builtin.hil | 6 ++++--
 src/Interpreter.cpp | 1 +
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/doc/hil.dox b/doc/hil.dox
index 7dd96b9..f8addf8 100644
--- a/doc/hil.dox
+++ b/doc/hil.dox
@@ -244,6 +244,11 @@ __type:__ Heisenberg string \n
 Queries stdin (command line input) and gets characters until a newline is received.
 Evaluates to a string containing those characters.
 
+<hr>
+\subsubsection end_of_input
+__type:__ Heisenberg integer \n
+Evaluates to 1 if there is nothing left to read from stdin (or reading it failed) and 0 otherwise.
+
 <hr>
 \subsubsection exit
 __type:__ Heisenberg string \n
diff --git a/include/builtin.hil b/include/builtin.hil
index 16a1924..791c711 100644
--- a/include/builtin.hil
+++ b/include/builtin.hil
@@ -46,13 +46,15 @@ split = {
 {basic Read-Evaluate-Print Loop}
 hexed_quit_repl = false
 quit = {hexed_quit_repl = true; {}}
+hexed_repl_except = {println exception; except = hexed_repl_except}
 repl = {
-    while = {!hexed_quit_repl}
+    while = {!(hexed_quit_repl | end_of_input)}
     do = {
-        except = {println exception;}
+        except = hexed_repl_except
         print {#+^$ }
         hexed_repl_cmd = ask
         {basically reimplement the conditional to avoid overwriting `if`/`then`/`else`}
+        hexed_result = {}
         hexed_result = {} + ($hexed_repl_cmd)
         hexed_repl_case0 = {println hexed_result}
         hexed_repl_case1 = {}
diff --git a/src/Interpreter.cpp b/src/Interpreter.cpp
index 0e22d05..b759689 100644
--- a/src/Interpreter.cpp
+++ b/src/Interpreter.cpp
@@ -342,6 +342,7 @@ Interpreter::Interpreter(std::vector<std::string> preload) :
     std::getline(std::cin, input);
     return input;
   }));
+  variables->create("end_of_input", new Namespace::Heisenberg<int>([]() {return !std::cin.good();}));
   variables->create("exit", new Namespace::Heisenberg<std::string>([this]() {
     _text.clear();
     return "";
-- 
2.43.0


From 9f4c75e5d13af11eee859feae32bc97280613cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:49 +0000
Subject: [PATCH 12/16] fix: measure wall clock time with a clock that is never
 adjusted

A change of the system time changed `wall_time`, and termination conditions based on it.
---
 include/Iteration_status.hpp | 2 +-
 src/Iteration_status.cpp     | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/Iteration_status.hpp b/include/Iteration_status.hpp
index e058742..5fca611 100644
--- a/include/Iteration_status.hpp
+++ b/include/Iteration_status.hpp
@@ -17,7 +17,7 @@ namespace hexed
  */
 class Iteration_status
 {
-  std::chrono::time_point<std::chrono::system_clock> start;
+  std::chrono::time_point<std::chrono::steady_clock> start;
 
   protected:
   int width();
diff --git a/src/Iteration_status.cpp b/src/Iteration_status.cpp
index 2e74a46..31736f3 100644
--- a/src/Iteration_status.cpp
+++ b/src/Iteration_status.cpp
@@ -44,7 +44,7 @@ std::string Iteration_status::report()
 
 void Iteration_status::set_time()
 {
-  start = std::chrono::system_clock::now();
+  start = std::chrono::steady_clock::now();
 }
 
 double Iteration_status::start_time()
@@ -54,7 +54,7 @@ double Iteration_status::start_time()
 
 double Iteration_status::wall_time()
 {
-  return std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::system_clock::now() - start).count()*1e-9;
+  return std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::steady_clock::now() - start).count()*1e-9;
 }
 
 }
-- 
2.43.0


From 7ee1f5d46f7e244945f5818e3f0d76852831e27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:22 +0000
Subject: [PATCH 13/16] fix: reject state files that do not match the mesh

---
 src/Solver.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Solver.cpp b/src/Solver.cpp
index 93a7db3..af7fec8 100644
--- a/src/Solver.cpp
+++ b/src/Solver.cpp
@@ -237,6 +237,10 @@ void Solver::read_state(std::string file_name)
   hsize_t n_var = params.n_var_numeric();
   hsize_t n_qpoint = params.n_qpoint();
   auto dset = file.openDataSet("state");
+  H5::DataSpace file_space = dset.getSpace();
+  hsize_t file_dims [3] {};
+  if (file_space.getSimpleExtentNdims() == 3) file_space.getSimpleExtentDims(file_dims);
+  HEXED_ASSERT(file_dims[0] == n_elem && file_dims[1] == n_var && file_dims[2] == n_qpoint, "state file does not match the mesh");
   for (hsize_t i_elem = 0; i_elem < n_elem; ++i_elem) {
     hsize_t elem_dims [3] {1, n_var, n_qpoint};
     H5::DataSpace mspace (3, elem_dims, nullptr);
-- 
2.43.0


From 645371c446d559c33f7733361cc00eb1827087ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:22 +0000
Subject: [PATCH 14/16] fix: read the last line of CSV files once and report
 malformed or unreadable ones

---
 src/read_csv.cpp | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/read_csv.cpp b/src/read_csv.cpp
index 9e2218d..2a6e08b 100644
--- a/src/read_csv.cpp
+++ b/src/read_csv.cpp
@@ -10,25 +10,35 @@ Eigen::Matrix<double, dyn, dyn, Eigen::RowMajor> read_csv(std::string file_name)
   std::ifstream file(file_name);
   HEXED_ASSERT(file.good(), format_str(1000, "failed to open file `%s`", file_name.c_str()));
   std::string line;
-  std::getline(file, line);
-  int cols = std::count(line.begin(), line.end(), ',') + 1;
-  HEXED_ASSERT(cols > 0, "nonpositive number of columns");
+  int cols = 1;
   int rows = 0;
-  while (!line.empty()) {
+  bool finished = false; // true after the first blank line
+  while (std::getline(file, line)) {
+    if (!line.empty() && line.back() == '\r') line.pop_back();
+    finished = finished || line.empty();
+    if (finished) {
+      HEXED_ASSERT(line.empty(), format_str(1000, "blank line in the middle of file `%s`", file_name.c_str()));
+      continue;
+    }
+    int line_cols = std::count(line.begin(), line.end(), ',') + 1;
+    if (rows == 0) cols = line_cols;
+    HEXED_ASSERT(line_cols == cols, format_str(1000, "rows of file `%s` have different numbers of columns", file_name.c_str()));
     ++rows;
     auto begin = line.begin();
     for (int i_col = 0; i_col < cols; ++i_col) {
       auto end = std::find(begin, line.end(), ',');
       std::string entry(begin, end);
       try {
-        data.push_back(std::stod(entry));
+        std::size_t n_read;
+        data.push_back(std::stod(entry, &n_read));
+        HEXED_ASSERT(entry.find_first_not_of(" \t", n_read) == std::string::npos, "extra characters after numeric literal");
       } catch (...) {
         HEXED_ASSERT(false, format_str(1000, "could not convert `%s` to `double`", entry.c_str()))
       }
-      begin = end + 1;
+      if (end != line.end()) begin = end + 1;
     }
-    std::getline(file, line);
   }
+  HEXED_ASSERT(!file.bad(), format_str(1000, "failed to read file `%s`", file_name.c_str()));
   Eigen::Matrix<double, dyn, dyn, Eigen::RowMajor> mat(rows, cols);
   for (unsigned i = 0; i < data.size(); ++i) mat(i) = data[i];
   return mat;
-- 
2.43.0


From 2bda135a07de55d7599d53cdc724bbfe747cadc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:22 +0000
Subject: [PATCH 15/16] fix: check indices in mesh files before using them

---
 src/Accessible_mesh.cpp | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/src/Accessible_mesh.cpp b/src/Accessible_mesh.cpp
index 63fece8..2b9c224 100644
--- a/src/Accessible_mesh.cpp
+++ b/src/Accessible_mesh.cpp
@@ -1662,11 +1662,21 @@ void Accessible_mesh::read_file(std::string file_name)
   int n_vert = params.n_vertices();
   std::vector<Element*> elem_ptrs(n_elem); // really need to switch to storing a flat array of fully polymorphic elements to avoid this nonsense
   std::vector<Deformed_element*> def_elem_ptrs(n_elem, nullptr);
+  // Check that values used as indices are in `[lower, upper)`. The file could be damaged.
+  auto check_range = [](int value, int lower, int upper) {
+    HEXED_ASSERT(lower <= value && value < upper, format_str(1000, "mesh file contains invalid index %i", value));
+  };
+  auto check_face = [&](int i_elem, int i_dim, int face_sign) {
+    check_range(i_elem, 0, n_elem);
+    check_range(i_dim, 0, params.n_dim);
+    check_range(face_sign, 0, 2);
+  };
   for (int i_elem = 0; i_elem < n_elem; ++i_elem) {
     std::vector<int> nom_pos(params.n_dim);
     h5_read_row(nom_pos_dset, params.n_dim, i_elem, nom_pos.data());
     int ref_level = h5_read_value<int>(ref_level_dset, i_elem);
-    int is_def = h5_read_value<bool>(is_def_dset, i_elem);
+    int is_def = h5_read_value<unsigned char>(is_def_dset, i_elem); // `bool` could not represent an invalid value
+    check_range(is_def, 0, 2);
     int sn = add_element(ref_level, is_def, nom_pos, tree ? tree->origin() : Mat<>::Zero(params.n_dim));
     int vert_inds[8] {};
     h5_read_row(vert_ind_dset, n_vert, i_elem, vert_inds);
@@ -1683,7 +1693,9 @@ void Accessible_mesh::read_file(std::string file_name)
     std::function<void(Tree*, int)> read_tree = [&](Tree* t, int row) {
       std::vector<int> data(2 + n_vert);
       h5_read_row(child_dset, 2 + n_vert, row, data.data());
+      check_range(data[0], -1, n_elem);
       if (data[0] >= 0) {
+        HEXED_ASSERT(!elem_ptrs[data[0]]->tree, "mesh file refers to the same element at multiple places in the tree");
         Element& elem = *elem_ptrs[data[0]];
         t->elem.pair(elem.tree);
         t->def_elem = def_elem_ptrs[data[0]]; // if not deformed, this is just `nullptr`, as it should be
@@ -1692,7 +1704,10 @@ void Accessible_mesh::read_file(std::string file_name)
       if (data[2] >= 0) {
         t->refine();
         auto children = t->children();
-        for (int i_child = 0; i_child < n_vert; ++i_child) read_tree(children[i_child], data[2 + i_child]);
+        for (int i_child = 0; i_child < n_vert; ++i_child) {
+          HEXED_ASSERT(data[2 + i_child] > row, "mesh file contains an invalid tree"); // parents are always written before children
+          read_tree(children[i_child], data[2 + i_child]);
+        }
       }
     };
     read_tree(tree.get(), 0);
@@ -1704,6 +1719,7 @@ void Accessible_mesh::read_file(std::string file_name)
   for (int i_con = 0; i_con < n_con; ++i_con) {
     int data [6];
     h5_read_row(con_dset, 6, i_con, data);
+    for (int i_side = 0; i_side < 2; ++i_side) check_face(data[i_side], data[2 + i_side], data[4 + i_side]);
     std::array<Element*, 2> el_ar;
     for (int i_side = 0; i_side < 2; ++i_side) el_ar[i_side] = elem_ptrs[data[i_side]];
     if (el_ar[0]->get_is_deformed() && el_ar[1]->get_is_deformed()) {
@@ -1721,12 +1737,18 @@ void Accessible_mesh::read_file(std::string file_name)
   for (int i_con = 0; i_con < n_con; ++i_con) {
     int data [11];
     h5_read_row(ref_con_dset, 11, i_con, data);
+    for (int i_side = 0; i_side < 2; ++i_side) {
+      check_face(data[0], data[7 + i_side], data[9 + i_side]);
+      check_range(data[5 + i_side], 0, 2);
+    }
     std::array<bool, 2> stretch {bool(data[5]), bool(data[6])};
+    HEXED_ASSERT(params.n_dim - 1 - stretch[0] - stretch[1] >= 0, "mesh file contains invalid stretching");
     int n_fine = math::pow(2, params.n_dim - 1 - stretch[0] - stretch[1]);
     Element* coarse = elem_ptrs[data[0]];
     std::vector<Element*> fine(n_fine);
     bool is_def = coarse->get_is_deformed();
     for (int i_fine = 0; i_fine < n_fine; ++i_fine) {
+      check_range(data[1 + i_fine], 0, n_elem);
       fine[i_fine] = elem_ptrs[data[1 + i_fine]];
       is_def = is_def && fine[i_fine]->get_is_deformed();
     }
@@ -1748,7 +1770,8 @@ void Accessible_mesh::read_file(std::string file_name)
   for (int i_con = 0; i_con < int(dims[0]); ++i_con) {
     int data [4];
     h5_read_row(bound_con_dset, 4, i_con, data);
-    HEXED_ASSERT(data[1] < int(bound_conds.size()), "mesh file refers to nonexistant boundary condition");
+    check_face(data[0], data[2], data[3]);
+    HEXED_ASSERT(data[1] >= 0 && data[1] < int(bound_conds.size()), "mesh file refers to nonexistant boundary condition");
     if (elem_ptrs[data[0]]->get_is_deformed()) {
       def.bound_cons.emplace_back(new Typed_bound_connection<Deformed_element>(*def_elem_ptrs[data[0]], data[2], data[3], data[1]));
     } else {
@@ -1759,8 +1782,11 @@ void Accessible_mesh::read_file(std::string file_name)
   auto ind_dset = file.openDataSet("/elements/face_warping/element_indices");
   auto adj_dset = file.openDataSet("/elements/face_warping/node_adjustments");
   adj_dset.getSpace().getSimpleExtentDims(dims);
+  HEXED_ASSERT(int(dims[1]) == 2*params.n_dim*params.n_face_qpoint(), "mesh file contains the wrong number of node adjustments");
   for (unsigned row = 0; row < dims[0]; ++row) {
-    Deformed_element* elem = def_elem_ptrs[h5_read_value<int>(ind_dset, row)];
+    int i_elem = h5_read_value<int>(ind_dset, row);
+    check_range(i_elem, 0, n_elem);
+    Deformed_element* elem = def_elem_ptrs[i_elem];
     HEXED_ASSERT(elem, "file specifies face warping for a Cartesian element");
     h5_read_row(adj_dset, dims[1], row, elem->node_adjustments());
   }
-- 
2.43.0


From 19547202cbb2b1435dd7cd920d9344d7a7b7133a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:18 +0000
Subject: [PATCH 16/16] fix: do not discard cells of the tree which still
 contain elements further down

---
 src/Accessible_mesh.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/Accessible_mesh.cpp b/src/Accessible_mesh.cpp
index 2b9c224..4953957 100644
--- a/src/Accessible_mesh.cpp
+++ b/src/Accessible_mesh.cpp
@@ -880,6 +880,14 @@ bool has_existent_children(Tree* t)
   return has;
 }
 
+// whether there is an element, at any level of refinement, in this part of the tree
+bool any_exist(Tree* t)
+{
+  bool any = exists(t);
+  for (Tree* child : t->children()) any = any || any_exist(child);
+  return any;
+}
+
 // whether an element is currently set to be deformed at the end of the `update` sweep
 bool is_def(Element& elem)
 {
@@ -1227,7 +1235,7 @@ bool Accessible_mesh::update(std::function<bool(Element&)> refine_criterion, std
               if (neighbor->refinement_level() > elem.refinement_level()) {
                 Tree* p = neighbor->parent();
                 bool can_unref = true;
-                for (Tree* child : p->children()) can_unref = can_unref && !exists(child);
+                for (Tree* child : p->children()) can_unref = can_unref && !any_exist(child);
                 if (can_unref && !needs_refine(p)) {
                   changed = true;
                   for (Tree* child : p->children()) {
-- 
2.43.0

