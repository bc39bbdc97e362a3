From 8f58e4a4f0a2687ad9fc095ff445c987bb1ed2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:36 +0000
Subject: [PATCH 01/81] fix: hash iterator initialization on an empty table
 never terminated

---
 src/ccpp_hash_table.F90 | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ccpp_hash_table.F90 b/src/ccpp_hash_table.F90
index 147ca5f..07830f3 100644
--- a/src/ccpp_hash_table.F90
+++ b/src/ccpp_hash_table.F90
@@ -402,11 +402,14 @@ CONTAINS
       this%index = 0
       nullify(this%table_entry)
       do
+         if (this%index >= hash_table%table_size) then
+            ! No entries (or table not initialized), iterator is not valid
+            this%index = 0
+            exit
+         end if
          this%index = this%index + 1
          if (associated(hash_table%table(this%index)%entry_value)) then
             exit
-         else if (this%index > hash_table%table_size) then
-            this%index = 0
          end if
       end do
    end subroutine hash_iterator_initialize
-- 
2.43.0


From 74ff940d52376774ef37168b2f07128c72a083fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:54 +0000
Subject: [PATCH 02/81] fix: resetting the model constituents object left it
 locked

After a reset the (data) lock flag survived, so no constituent could be
registered after re-initializing the table.
---
 src/ccpp_constituent_prop_mod.F90 | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ccpp_constituent_prop_mod.F90 b/src/ccpp_constituent_prop_mod.F90
index 1601957..bb9e95c 100644
--- a/src/ccpp_constituent_prop_mod.F90
+++ b/src/ccpp_constituent_prop_mod.F90
@@ -1570,6 +1570,8 @@ CONTAINS
          end if
          deallocate(this%const_metadata)
       end if
+      this%table_locked = .false.
+      this%data_locked = .false.
       if (clear_table) then
          this%num_layer_vars = 0
          this%num_advected_vars = 0
-- 
2.43.0


From e2256527b6f36b5df8e2d6caf9ecb5414e72d644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:54 +0000
Subject: [PATCH 03/81] fix: a rejected second instantiate destroyed the
 existing constituent

---
 src/ccpp_constituent_prop_mod.F90 | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ccpp_constituent_prop_mod.F90 b/src/ccpp_constituent_prop_mod.F90
index bb9e95c..e4a0591 100644
--- a/src/ccpp_constituent_prop_mod.F90
+++ b/src/ccpp_constituent_prop_mod.F90
@@ -397,6 +397,7 @@ CONTAINS
          errcode = 1
          write(errmsg, *) 'ccpp_constituent_properties_t object, ',        &
               trim(std_name), ', is already initialized as ', this%var_std_name
+         return
       else
          errcode = 0
          errmsg = ''
-- 
2.43.0


From 71343ea141ae530c08d3a689e40e8b71c8af8c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:54 +0000
Subject: [PATCH 04/81] fix: deallocated constituent kept stale property values

---
 src/ccpp_constituent_prop_mod.F90 | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ccpp_constituent_prop_mod.F90 b/src/ccpp_constituent_prop_mod.F90
index e4a0591..7aca4ea 100644
--- a/src/ccpp_constituent_prop_mod.F90
+++ b/src/ccpp_constituent_prop_mod.F90
@@ -480,6 +480,9 @@ CONTAINS
       if (allocated(this%var_long_name)) then
          deallocate(this%var_long_name)
       end if
+      if (allocated(this%var_units)) then
+         deallocate(this%var_units)
+      end if
       if (allocated(this%vert_dim)) then
          deallocate(this%vert_dim)
       end if
@@ -488,6 +491,10 @@ CONTAINS
       this%const_type = int_unassigned
       this%const_water = int_unassigned
       this%const_default_value = kphys_unassigned
+      this%min_val = 0.0_kind_phys
+      this%molar_mass_val = kphys_unassigned
+      this%thermo_active = .false.
+      this%water_species = .false.
 
    end subroutine ccp_deallocate
 
-- 
2.43.0


From 0f3a3e32ad17bd40e4268a2842f1cfdb1c35ed35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:54 +0000
Subject: [PATCH 05/81] fix: undefined error code for null constituent property
 pointers

The error code was incremented without having been set, so the error could
be lost.
---
 src/ccpp_constituent_prop_mod.F90 | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/ccpp_constituent_prop_mod.F90 b/src/ccpp_constituent_prop_mod.F90
index 7aca4ea..87daeeb 100644
--- a/src/ccpp_constituent_prop_mod.F90
+++ b/src/ccpp_constituent_prop_mod.F90
@@ -1968,6 +1968,7 @@ CONTAINS
          call this%prop%standard_name(std_name, errcode, errmsg)
       else
          std_name = ''
+         call initialize_errvars(errcode, errmsg)
          call append_errvars(1, ": invalid constituent pointer",        &
               subname, errcode=errcode, errmsg=errmsg)
       end if
@@ -1991,6 +1992,7 @@ CONTAINS
          call this%prop%long_name(long_name, errcode, errmsg)
       else
          long_name = ''
+         call initialize_errvars(errcode, errmsg)
          call append_errvars(1, ": invalid constituent pointer",        &
               subname, errcode=errcode, errmsg=errmsg)
       end if
@@ -2014,6 +2016,7 @@ CONTAINS
          call this%prop%units(units, errcode, errmsg)
       else
          units = ''
+         call initialize_errvars(errcode, errmsg)
          call append_errvars(1, ": invalid constituent pointer",        &
               subname, errcode=errcode, errmsg=errmsg)
       end if
@@ -2039,6 +2042,7 @@ CONTAINS
          end if
       else
          vert_dim = ''
+         call initialize_errvars(errcode, errmsg)
          call append_errvars(1, ": invalid constituent pointer",        &
               subname, errcode=errcode, errmsg=errmsg)
       end if
@@ -2122,6 +2126,7 @@ CONTAINS
          index = this%prop%const_index(errcode, errmsg)
       else
          index = int_unassigned
+         call initialize_errvars(errcode, errmsg)
          call append_errvars(1, ": invalid constituent pointer",        &
               subname, errcode=errcode, errmsg=errmsg)
       end if
@@ -2144,6 +2149,7 @@ CONTAINS
          call this%prop%is_thermo_active(val_out, errcode, errmsg)
       else
          val_out = .false.
+         call initialize_errvars(errcode, errmsg)
          call append_errvars(1, ": invalid constituent pointer",        &
               subname, errcode=errcode, errmsg=errmsg)
       end if
@@ -2166,6 +2172,7 @@ CONTAINS
          call this%prop%is_water_species(val_out, errcode, errmsg)
       else
          val_out = .false.
+         call initialize_errvars(errcode, errmsg)
          call append_errvars(1, ": invalid constituent pointer",        &
               subname, errcode=errcode, errmsg=errmsg)
       end if
@@ -2188,6 +2195,7 @@ CONTAINS
          call this%prop%is_advected(val_out, errcode, errmsg)
       else
          val_out = .false.
+         call initialize_errvars(errcode, errmsg)
          call append_errvars(1, ": invalid constituent pointer",        &
               subname, errcode=errcode, errmsg=errmsg)
       end if
@@ -2210,6 +2218,7 @@ CONTAINS
          call this%prop%is_mass_mixing_ratio(val_out, errcode, errmsg)
       else
          val_out = .false.
+         call initialize_errvars(errcode, errmsg)
          call append_errvars(1, ": invalid constituent pointer",        &
               subname, errcode=errcode, errmsg=errmsg)
       end if
@@ -2232,6 +2241,7 @@ CONTAINS
          call this%prop%is_volume_mixing_ratio(val_out, errcode, errmsg)
       else
          val_out = .false.
+         call initialize_errvars(errcode, errmsg)
          call append_errvars(1, ": invalid constituent pointer",        &
               subname, errcode=errcode, errmsg=errmsg)
       end if
@@ -2254,6 +2264,7 @@ CONTAINS
          call this%prop%is_number_concentration(val_out, errcode, errmsg)
       else
          val_out = .false.
+         call initialize_errvars(errcode, errmsg)
          call append_errvars(1, ": invalid constituent pointer",        &
               subname, errcode=errcode, errmsg=errmsg)
       end if
@@ -2276,6 +2287,7 @@ CONTAINS
          call this%prop%is_dry(val_out, errcode, errmsg)
       else
          val_out = .false.
+         call initialize_errvars(errcode, errmsg)
          call append_errvars(1, ": invalid constituent pointer",        &
               subname, errcode=errcode, errmsg=errmsg)
       end if
@@ -2298,6 +2310,7 @@ CONTAINS
          call this%prop%is_moist(val_out, errcode, errmsg)
       else
          val_out = .false.
+         call initialize_errvars(errcode, errmsg)
          call append_errvars(1, ": invalid constituent pointer",        &
               subname, errcode=errcode, errmsg=errmsg)
       end if
@@ -2320,6 +2333,7 @@ CONTAINS
          call this%prop%is_wet(val_out, errcode, errmsg)
       else
          val_out = .false.
+         call initialize_errvars(errcode, errmsg)
          call append_errvars(1, ": invalid constituent pointer",        &
               subname, errcode=errcode, errmsg=errmsg)
       end if
@@ -2342,6 +2356,7 @@ CONTAINS
          call this%prop%minimum(val_out, errcode, errmsg)
       else
          val_out = kphys_unassigned
+         call initialize_errvars(errcode, errmsg)
          call append_errvars(1, ": invalid constituent pointer",        &
               subname, errcode=errcode, errmsg=errmsg)
       end if
@@ -2367,6 +2382,7 @@ CONTAINS
       if (associated(this%prop)) then
          call this%prop%set_minimum(min_value, errcode, errmsg)
       else
+         call initialize_errvars(errcode, errmsg)
          call append_errvars(1, ": invalid constituent pointer",        &
               subname, errcode=errcode, errmsg=errmsg)
       end if
@@ -2389,6 +2405,7 @@ CONTAINS
          call this%prop%molar_mass(val_out, errcode, errmsg)
       else
          val_out = kphys_unassigned
+         call initialize_errvars(errcode, errmsg)
          call append_errvars(1, ": invalid constituent pointer",        &
               subname, errcode=errcode, errmsg=errmsg)
       end if
@@ -2410,6 +2427,7 @@ CONTAINS
       if (associated(this%prop)) then
          call this%prop%set_molar_mass(molar_mass, errcode, errmsg)
       else
+         call initialize_errvars(errcode, errmsg)
          call append_errvars(1, ": invalid constituent pointer",        &
               subname, errcode=errcode, errmsg=errmsg)
       end if
@@ -2432,6 +2450,7 @@ CONTAINS
          call this%prop%default_value(val_out, errcode, errmsg)
       else
          val_out = kphys_unassigned
+         call initialize_errvars(errcode, errmsg)
          call append_errvars(1, ": invalid constituent pointer",        &
               subname, errcode=errcode, errmsg=errmsg)
       end if
@@ -2454,6 +2473,7 @@ CONTAINS
          call this%prop%has_default(val_out, errcode, errmsg)
       else
          val_out = .false.
+         call initialize_errvars(errcode, errmsg)
          call append_errvars(1, ": invalid constituent pointer",      &
               subname, errcode=errcode, errmsg=errmsg)
       end if
@@ -2533,6 +2553,7 @@ CONTAINS
             end if
          end if
       else
+         call initialize_errvars(errcode, errmsg)
          call append_errvars(1, ": invalid constituent pointer",         &
               subname, errcode=errcode, errmsg=errmsg)
       end if
@@ -2559,6 +2580,7 @@ CONTAINS
             this%prop%thermo_active = thermo_flag
          end if
       else
+         call initialize_errvars(errcode, errmsg)
          call append_errvars(1, ": invalid constituent pointer",         &
               subname, errcode=errcode, errmsg=errmsg)
       end if
@@ -2585,6 +2607,7 @@ CONTAINS
             this%prop%water_species = water_flag
          end if
       else
+         call initialize_errvars(errcode, errmsg)
          call append_errvars(1, ": invalid constituent pointer",        &
               subname, errcode=errcode, errmsg=errmsg)
       end if
-- 
2.43.0


From 7a3ce90f559702057a75211074bc7fc1264ba4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:54 +0000
Subject: [PATCH 06/81] fix: setting an associated constituent pointer used an
 absent argument

---
 src/ccpp_constituent_prop_mod.F90 | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ccpp_constituent_prop_mod.F90 b/src/ccpp_constituent_prop_mod.F90
index 87daeeb..6101a8b 100644
--- a/src/ccpp_constituent_prop_mod.F90
+++ b/src/ccpp_constituent_prop_mod.F90
@@ -2494,16 +2494,16 @@ CONTAINS
       ! Local variables
       character(len=stdname_len) :: stdname
       character(len=errmsg_len)  :: errmsg2
+      integer                    :: errcode2
       character(len=*), parameter :: subname = 'ccpt_set'
 
       call initialize_errvars(errcode, errmsg)
       if (associated(this%prop)) then
-         call this%standard_name(stdname, errcode=errcode, errmsg=errmsg2)
-         if (errcode == 0) then
+         call this%standard_name(stdname, errcode=errcode2, errmsg=errmsg2)
+         if (errcode2 == 0) then
             write(errmsg2, *) "Pointer already allocated as '",               &
                  trim(stdname), "'"
          end if
-         errcode = errcode + 1
          call append_errvars(1, trim(errmsg2), subname, errcode=errcode,      &
               errmsg=errmsg)
       else
-- 
2.43.0


From 299d8287089e787d419de8ed1a765d3175cfae77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:54 +0000
Subject: [PATCH 07/81] fix: undefined error code when adding to uninitialized
 constituents

---
 src/ccpp_constituent_prop_mod.F90 | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ccpp_constituent_prop_mod.F90 b/src/ccpp_constituent_prop_mod.F90
index 6101a8b..1528a59 100644
--- a/src/ccpp_constituent_prop_mod.F90
+++ b/src/ccpp_constituent_prop_mod.F90
@@ -1169,6 +1169,7 @@ CONTAINS
       ! Local variable
       character(len=*), parameter :: subname = 'ccp_model_const_okay_to_add'
 
+      call initialize_errvars(errcode, errmsg)
       ccp_model_const_okay_to_add = this%hash_table%is_initialized()
       if (ccp_model_const_okay_to_add) then
          ccp_model_const_okay_to_add = .not. (this%const_props_locked(errcode=errcode,     &
-- 
2.43.0


From 2675e821a1219590ffaa76c0eea397c450078bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:02 +0000
Subject: [PATCH 08/81] fix: locking an uninitialized constituents table
 reported success

---
 src/ccpp_constituent_prop_mod.F90 | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ccpp_constituent_prop_mod.F90 b/src/ccpp_constituent_prop_mod.F90
index 1528a59..e71c000 100644
--- a/src/ccpp_constituent_prop_mod.F90
+++ b/src/ccpp_constituent_prop_mod.F90
@@ -1343,6 +1343,9 @@ CONTAINS
               "WARNING: Model constituents properties already locked, ignoring", &
               subname, errcode=errcode, errmsg=errmsg)
          errcode_local = 1
+      else if (.not. this%hash_table%is_initialized()) then
+         ! The error status has been set by const_props_locked
+         errcode_local = 1
       else
          ! Make sure everything is really initialized
          call this%reset(clear_hash_table=.false.)
-- 
2.43.0


From 8eb1b00fe87d9d441a185fdff45d9ae427227e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:15 +0000
Subject: [PATCH 09/81] fix: comparing an uninitialized constituent lost the
 error

---
 src/ccpp_constituent_prop_mod.F90 | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ccpp_constituent_prop_mod.F90 b/src/ccpp_constituent_prop_mod.F90
index e71c000..58d950a 100644
--- a/src/ccpp_constituent_prop_mod.F90
+++ b/src/ccpp_constituent_prop_mod.F90
@@ -766,9 +766,15 @@ CONTAINS
       logical,                              intent(out) :: equiv
       integer,          optional,           intent(out) :: errcode
       character(len=*), optional,           intent(out) :: errmsg
+      ! Local variable
+      logical :: is_inst
 
-      if (this%is_instantiated(errcode, errmsg) .and.                         &
-           oconst%is_instantiated(errcode, errmsg)) then
+      is_inst = this%is_instantiated(errcode, errmsg)
+      ! Do not clear an error from the first check with the second one
+      if (is_inst) then
+         is_inst = oconst%is_instantiated(errcode, errmsg)
+      end if
+      if (is_inst) then
          equiv = (trim(this%var_std_name) == trim(oconst%var_std_name)) .and. &
               (trim(this%var_long_name) == trim(oconst%var_long_name))  .and. &
               (trim(this%vert_dim) == trim(oconst%vert_dim))            .and. &
-- 
2.43.0


From 293dd1f06b48f989db8695994e7aed08d11382e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:18 +0000
Subject: [PATCH 10/81] fix: subcycles of a suite definition could not be
 generated (endless recursion on the loop extent, undeclared loop index)

---
 scripts/suite_objects.py | 40 ++++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index 4fac98b..26b02d6 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -1977,21 +1977,22 @@ class Subcycle(SuiteObject):
     """Class to represent a subcycled group of schemes or scheme collections"""
 
     def __init__(self, sub_xml, context, parent, run_env):
-        name = sub_xml.get('name', None) # Iteration count
-        loop_extent = sub_xml.get('loop', "1") # Number of iterations
+        name = sub_xml.get('name', None) # Name of loop index variable
+        self._loop_extent = sub_xml.get('loop', "1") # Number of iterations
         # See if our loop variable is an interger or a variable
         try:
-            loop_int = int(loop_extent) # pylint: disable=unused-variable
-            self._loop = loop_extent
+            loop_int = int(self._loop_extent) # pylint: disable=unused-variable
             self._loop_var_int = True
         except ValueError:
             self._loop_var_int = False
-            lvar = parent.find_variable(standard_name=self.loop, any_scope=True)
+            lvar = parent.find_variable(standard_name=self._loop_extent,
+                                        any_scope=True)
             if lvar is None:
                 emsg = "Subcycle, {}, specifies {} iterations but {} not found"
-                raise CCPPError(emsg.format(name, self.loop, self.loop))
+                raise CCPPError(emsg.format(name, self._loop_extent,
+                                            self._loop_extent))
             # end if
-            parent.add_call_list_variable(lvar)
+            parent.add_call_list_variable(lvar, exists_ok=True)
         # end try
         super().__init__(name, context, parent, run_env)
         for item in sub_xml:
@@ -2004,12 +2005,13 @@ class Subcycle(SuiteObject):
         if self.name is None:
             self.name = "subcycle_index{}".format(level)
         # end if
-        # Create a variable for the loop index
-        self.add_variable(Var({'local_name':self.name,
-                               'standard_name':'loop_variable',
-                               'type':'integer', 'units':'count',
-                               'dimensions':'()'}, _API_SOURCE, self.run_env),
-                          self.run_env)
+        # Create a variable for the loop index (declared by our Group). Note
+        #   that loops at the same level can share their index.
+        group.manage_variable(Var({'local_name':self.name,
+                                   'standard_name':self.name + '_loop_variable',
+                                   'type':'integer', 'units':'count',
+                                   'dimensions':'()', 'intent':'out'},
+                                  _API_SOURCE, self.run_env))
         # Handle all the suite objects inside of this subcycle
         scheme_mods = set()
         for item in self.parts:
@@ -2028,15 +2030,21 @@ class Subcycle(SuiteObject):
         for item in self.parts:
             item.write(outfile, errcode, errmsg, indent+1)
         # end for
-        outfile.write('end do', 2)
+        outfile.write('end do', indent)
 
     @property
     def loop(self):
         """Return the loop value or variable local_name"""
-        lvar = self.find_variable(standard_name=self.loop, any_scope=True)
+        if self._loop_var_int:
+            return self._loop_extent
+        # end if
+        # Prefer the name used in the group's argument list (if any)
+        lvar = self.find_variable(standard_name=self._loop_extent,
+                                  any_scope=True, search_call_list=True)
         if lvar is None:
             emsg = "Subcycle, {}, specifies {} iterations but {} not found"
-            raise CCPPError(emsg.format(self.name, self.loop, self.loop))
+            raise CCPPError(emsg.format(self.name, self._loop_extent,
+                                        self._loop_extent))
         # end if
         lname = lvar.get_prop_value('local_name')
         return lname
-- 
2.43.0


From 8b208f68d36b72c60093f62d49f471cba389ef25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:12 +0000
Subject: [PATCH 11/81] fix: regeneration kept stale generated files (a file
 was only replaced when it was unchanged)

---
 scripts/file_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/file_utils.py b/scripts/file_utils.py
index 669922b..dd89168 100644
--- a/scripts/file_utils.py
+++ b/scripts/file_utils.py
@@ -289,7 +289,7 @@ def move_modified_files(src_dir, dest_dir, overwrite=False, remove_src=False):
                 if overwrite:
                     fmove = True
                 else:
-                    fmove = filecmp.cmp(src_path, dest_path, shallow=False)
+                    fmove = not filecmp.cmp(src_path, dest_path, shallow=False)
                 # end if
             else:
                 fmove = True
-- 
2.43.0


From efd43e6ea8fb6898d34d352d0af31412f2f3c36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:12 +0000
Subject: [PATCH 12/81] fix: register crashed when repeated or when only
 another suite returns dynamic constituents

---
 scripts/host_cap.py | 54 +++++++++++++++++++++++++++++----------------
 1 file changed, 35 insertions(+), 19 deletions(-)

diff --git a/scripts/host_cap.py b/scripts/host_cap.py
index f1d2880..0265d2c 100644
--- a/scripts/host_cap.py
+++ b/scripts/host_cap.py
@@ -743,32 +743,48 @@ def write_host_cap(host_model, api, module_name, output_dir, run_env):
                     dyn_const_array = suite_dynamic_constituent_array_name(host_model, suite.name)
                     call_str = suite_part_call_list(host_model, const_dict, spart, False,
                                                                        dyn_const=True)
+                    # Find the dynamic constituents returned by this suite
+                    dyn_consts = list()
+                    for var in host_local_vars.variable_list():
+                        if var.get_prop_value('type') != 'ccpp_constituent_properties_t':
+                            continue
+                        # end if
+                        stdname = var.get_prop_value('standard_name')
+                        if spart.call_list.find_variable(standard_name=stdname,
+                                                         any_scope=False) is not None:
+                            dyn_consts.append(var.get_prop_value('local_name'))
+                        # end if
+                    # end for
+                    if dyn_consts:
+                        # The current constituents may still be in use
+                        cleanup = constituent_cleanup_subname(host_model)
+                        cap.write(f"if (allocated({dyn_const_array})) then", 3)
+                        cap.write(f"{errflg_name} = 1", 4)
+                        cap.write(f'{errmsg_name} = "Cannot register suite ' +
+                                  f'{suite.name} again before calling {cleanup}"', 4)
+                        cap.write("return", 4)
+                        cap.write("end if", 3)
+                    # end if
                     cap.write(f"call {suite.name}_{stage}({call_str})", 3)
                     cap.write(f"if ({errflg_name} /= 0) then", 3)
                     cap.write("return", 4)
                     cap.write("end if", 3)
                     # Allocate the suite's dynamic constituents array
-                    size_string = "0+"
-                    for var in host_local_vars.variable_list():
-                        vtype = var.get_prop_value('type')
-                        if vtype == 'ccpp_constituent_properties_t':
-                            local_name = var.get_prop_value('local_name')
-                            size_string += f"size({local_name})+"
-                        # end if
-                    # end for
-                    if not has_dyn_consts:
-                        cap.comment("Suite does not return dynamic constituents; allocate to zero", 3)
-                    # end if
-                    cap.write(f"allocate({dyn_const_array}({size_string[:-1]}))", 3)
-                    if has_dyn_consts:
+                    if dyn_consts:
+                        size_string = "0"
+                        for local_name in dyn_consts:
+                            size_string += f"+size({local_name})"
+                        # end for
+                        cap.write(f"allocate({dyn_const_array}({size_string}))", 3)
                         cap.comment("Pack the suite-level dynamic, run-time constituents array", 3)
                         cap.write("num_dyn_consts = 0", 3)
-                    for var in host_local_vars.variable_list():
-                        vtype = var.get_prop_value('type')
-                        if vtype != 'ccpp_constituent_properties_t':
-                            continue
-                        # end if
-                        local_name = var.get_prop_value('local_name')
+                    else:
+                        cap.comment("Suite does not return dynamic constituents; allocate to zero", 3)
+                        cap.write(f"if (.not. allocated({dyn_const_array})) then", 3)
+                        cap.write(f"allocate({dyn_const_array}(0))", 4)
+                        cap.write("end if", 3)
+                    # end if
+                    for local_name in dyn_consts:
                         cap.write(f"do const_index = 1, size({local_name})", 3)
                         cap.write(f"{dyn_const_array}(num_dyn_consts + const_index) = {local_name}(const_index)", 4)
                         cap.write("end do", 3)
-- 
2.43.0


From abe82363d9067c64bfb83229b59a14933f54f7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:38 +0000
Subject: [PATCH 13/81] fix: non-run phases called the schemes in command line
 order instead of suite definition order

---
 scripts/ccpp_suite.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/scripts/ccpp_suite.py b/scripts/ccpp_suite.py
index d2634c8..2f5df50 100644
--- a/scripts/ccpp_suite.py
+++ b/scripts/ccpp_suite.py
@@ -426,19 +426,17 @@ character(len=16) :: {css_var_name} = '{state}'
         self.__ddt_library = ddt_library
         # Collect all relevant schemes
         # For all groups, find associated init and final methods
-        scheme_set = set()
+        # Each scheme appears once, in suite definition order
+        scheme_list = list()
         for group in self.groups:
             for scheme in group.schemes():
-                scheme_set.add(scheme.name)
+                if scheme.name not in scheme_list:
+                    scheme_list.append(scheme.name)
+                # end if
             # end for
         # end for
-        no_scheme_entries = {} # Skip schemes that are not in this suite
-        for module in scheme_library:
-            if module in scheme_set:
-                scheme_entries = scheme_library[module]
-            else:
-                scheme_entries = no_scheme_entries
-            # end if
+        for module in scheme_list:
+            scheme_entries = scheme_library.get(module, {})
             for phase in self._full_phases:
                 if phase in scheme_entries:
                     header = scheme_entries[phase]
@@ -450,7 +448,7 @@ character(len=16) :: {css_var_name} = '{state}'
                         scheme = Scheme(sxml, self.__context, pgroup, run_env)
                         pgroup.add_part(scheme)
                     # end if (no else, scheme is already in group)
-                # end if (no else, phase not in scheme set)
+                # end if (no else, scheme has no entry for phase)
             # end for
         # end for
         # Grab the host model argument list
-- 
2.43.0


From 0038d19151e70199d128fafc1587b16447a0000d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:35 +0000
Subject: [PATCH 14/81] fix: generated caps did not compile with OpenMP and let
 thread 1 call the non-run phases

---
 scripts/ccpp_suite.py    | 4 ++++
 scripts/suite_objects.py | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/scripts/ccpp_suite.py b/scripts/ccpp_suite.py
index 2f5df50..09379bc 100644
--- a/scripts/ccpp_suite.py
+++ b/scripts/ccpp_suite.py
@@ -537,6 +537,10 @@ character(len=16) :: {css_var_name} = '{state}'
                            self.module) as outfile:
             # Write module 'use' statements here
             outfile.write('use {}'.format(KINDS_MODULE), 1)
+            # Needed for the threaded region checks
+            outfile.write('#ifdef _OPENMP', 0)
+            outfile.write('use omp_lib, only: omp_get_thread_num', 1)
+            outfile.write('#endif', 0)
             # Look for any DDT types
             self.__ddt_library.write_ddt_use_statements(self.values(),
                                                         outfile, 1)
diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index 26b02d6..ccfefcf 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -2136,7 +2136,7 @@ class Group(SuiteObject):
 '''
 
     __thread_check = CodeBlock([('#ifdef _OPENMP', -1),
-                                ('if (omp_get_thread_num() > 1) then', 1),
+                                ('if (omp_get_thread_num() > 0) then', 1),
                                 ('{errcode} = 1', 2),
                                 (('{errmsg} = "Cannot call {phase} routine '
                                   'from a threaded region"'), 2),
-- 
2.43.0


From cd1d5ce8ec58cc19c120a7d330fa95083d658079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:26 +0000
Subject: [PATCH 15/81] fix: capgen crashed on a group with optional arguments
 but no local variables

---
 scripts/suite_objects.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index ccfefcf..11f277f 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -2434,7 +2434,7 @@ class Group(SuiteObject):
                     else:
                         dimstr = ''
                     # end if
-                    pointer_var_set.append([name,kind,dimstr,vtype])
+                    pointer_var_set.append([cvar,name,kind,dimstr,vtype])
                 # end if
             # end for
             # Any optional arguments that are not requested by the host need to have
@@ -2453,7 +2453,7 @@ class Group(SuiteObject):
                 else:
                     dimstr = ''
                 # end if
-                pointer_var_set.append([name,kind,dimstr,vtype])
+                pointer_var_set.append([ivar,name,kind,dimstr,vtype])
             # end for
             # Any arguments used in variable transforms before or after the
             # Scheme call? If so, declare local copy for reuse in the Group cap.
@@ -2538,7 +2538,7 @@ class Group(SuiteObject):
                           target=target)
         # end for
         # Pointer variables
-        for (name, kind, dim, vtype) in pointer_var_set:
+        for (var, name, kind, dim, vtype) in pointer_var_set:
             var.write_ptr_def(outfile, indent+1, name,  kind, dim, vtype)
         # end for
         outfile.write('', 0)
@@ -2635,7 +2635,7 @@ class Group(SuiteObject):
         if pointer_var_set:
             outfile.write('\n! Nullify local pointers', indent+1)
         # end if
-        for (name, kind, dim, vtype) in pointer_var_set:
+        for (_, name, kind, dim, vtype) in pointer_var_set:
             #cspace = ' '*(15-len(name))
             outfile.write('if (associated({})) {} nullify({})'.format(name,' '*(15-len(name)),name), indent+1)
         # end fo
-- 
2.43.0


From 7c880b194e4e742a712936d64958e25b884fdb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:41 +0000
Subject: [PATCH 16/81] fix: variables of a host 'active' condition were not
 passed to the suite group

---
 scripts/suite_objects.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index 11f277f..3b01026 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -1280,6 +1280,15 @@ class Scheme(SuiteObject):
             # If so, declare localpointer variable. This is needed to
             # pass inactive (not present) status through the caps.
             if var.get_prop_value('optional'):
+                if dict_var:
+                    # The Group needs all the variables that are part of
+                    # the 'active' attribute conditional
+                    var_dicts = [self.__group.call_list] + self.__group.suite_dicts()
+                    (_, vars_needed) = dict_var.conditional(var_dicts)
+                    for var_needed in vars_needed:
+                        self.update_group_call_list_variable(var_needed)
+                    # end for
+                # end if
                 newvar_ptr = var.clone(var.get_prop_value('local_name')+'_ptr')
                 self.__optional_vars.append([dict_var, var, newvar_ptr, has_transform])
             # end if
-- 
2.43.0


From 0aabd584f1a0e5590f66927138f17bdb8fdb11a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:03 +0000
Subject: [PATCH 17/81] fix: suite variables and arguments with the same local
 name were mixed up

---
 scripts/ccpp_suite.py | 45 ++++++++++++++++++++++++++++++++++++++++++-
 scripts/metavar.py    | 12 ++++++++++--
 2 files changed, 54 insertions(+), 3 deletions(-)

diff --git a/scripts/ccpp_suite.py b/scripts/ccpp_suite.py
index 09379bc..60e6d50 100644
--- a/scripts/ccpp_suite.py
+++ b/scripts/ccpp_suite.py
@@ -312,7 +312,9 @@ character(len=16) :: {css_var_name} = '{state}'
                     var.source = ParseSource(API_SOURCE_NAME,
                                              _API_SUITE_VAR_NAME,
                                              var.context)
-                    self.add_variable(var, self.__run_env)
+                    # The local name may be in use by another suite variable
+                    self.add_variable(var, self.__run_env, gen_unique=True)
+                    var = self[standard_name]
                     # Remove the variable from the group
                     group.remove_variable(standard_name)
                     # Make sure the variable's dimensions are available
@@ -481,6 +483,47 @@ character(len=16) :: {css_var_name} = '{state}'
                 # end if
             # end for
         # end for
+        self.__resolve_local_names()
+
+    def __resolve_local_names(self):
+        """Make sure that the local names of the variables which are managed
+        by this suite or by one of its groups do not collide with the local
+        name of a different variable in the same scope."""
+        suite_used = set()
+        for group in self.groups:
+            used = {x.get_prop_value('local_name').lower()
+                    for x in group.call_list.variable_list()}
+            # A renamed variable must not collide with a later one
+            used_all = used | {x.get_prop_value('local_name').lower()
+                               for x in group.variable_list()}
+            for var in group.variable_list():
+                if var.get_prop_value('local_name').lower() in used:
+                    Suite.__rename_variable(group, var, used_all)
+                # end if
+            # end for
+            suite_used |= used_all
+        # end for
+        svars = self.variable_list()
+        used_all = suite_used | {x.get_prop_value('local_name').lower()
+                                 for x in svars}
+        for var in svars:
+            if var.get_prop_value('local_name').lower() in suite_used:
+                Suite.__rename_variable(self, var, used_all)
+            # end if
+        # end for
+
+    @staticmethod
+    def __rename_variable(vdict, var, used_names):
+        """Replace <var> in <vdict> with a clone with a local name which is
+        not in <used_names>"""
+        lname = var.get_prop_value('local_name')
+        index = 1
+        while f"{lname}_{index}".lower() in used_names:
+            index += 1
+        # end while
+        new_name = f"{lname}_{index}"
+        used_names.add(new_name.lower())
+        vdict[var.get_prop_value('standard_name')] = var.clone(new_name)
 
     def is_run_group(self, group):
         """Method to separate out run-loop groups from special initial
diff --git a/scripts/metavar.py b/scripts/metavar.py
index 35878bc..95ff5f2 100755
--- a/scripts/metavar.py
+++ b/scripts/metavar.py
@@ -1683,6 +1683,9 @@ class VarDictionary(OrderedDict):
             if gen_unique:
                 new_lname = self.new_internal_variable_name(prefix=lname)
                 newvar = newvar.clone(new_lname)
+                if standard_name not in self:
+                    lname = new_lname
+                # end if (no else, new_lname will not be used)
             elif not exists_ok:
                 errstr = 'Invalid local_name: {} already registered{}'
                 cstr = context_string(lvar.source.context, with_comma=True)
@@ -1713,6 +1716,10 @@ class VarDictionary(OrderedDict):
         Ignore if <standard_name> is not in dict
         """
         if standard_name in self:
+            lname = self[standard_name].get_prop_value('local_name').lower()
+            if self.__local_names.get(lname) == standard_name:
+                del self.__local_names[lname]
+            # end if
             del self[standard_name]
         # end if
 
@@ -2085,7 +2092,8 @@ class VarDictionary(OrderedDict):
         else:
             var_prefix = '{}'.format(prefix)
         # end if
-        varlist = [x for x in self.__local_names.keys() if var_prefix in x]
+        # Names in use, note that local names are case insensitive
+        varlist = set(self.__local_names.keys())
         newvar = None
         while newvar is None:
             if index == 0:
@@ -2097,7 +2105,7 @@ class VarDictionary(OrderedDict):
             if len(newvar) > max_len:
                 var_prefix = var_prefix[:-1]
                 newvar = None
-            elif newvar in varlist:
+            elif newvar.lower() in varlist:
                 newvar = None
             # end if
         # end while
-- 
2.43.0


From ac4a7545ae006652065087de1fc2a22c00d0ed77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:54 +0000
Subject: [PATCH 18/81] fix: unit conversions of intent(out), optional and
 suite variables lost the result or crashed

---
 scripts/suite_objects.py | 260 +++++++++++++++++++++++----------------
 1 file changed, 156 insertions(+), 104 deletions(-)

diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index 3b01026..949c99e 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -105,14 +105,16 @@ class CallList(VarDictionary):
         super().add_variable(newvar, run_env, exists_ok=exists_ok,
                              gen_unique=gen_unique, adjust_intent=adjust_intent)
 
-    def call_string(self, cldicts=None, is_func_call=False, subname=None, sub_lname_list=None):
+    def call_string(self, cldicts=None, is_func_call=False, subname=None, sub_lnames=None):
         """Return a dummy argument string for this call list.
         <cldict> may be a list of VarDictionary objects to search for
         local_names (default is to use self).
         <is_func_call> should be set to True to construct a call statement.
         If <is_func_call> is False, construct a subroutine dummy argument
         list.
-        <sub_lname_list> may be a list of local_name substitutions.
+        <sub_lnames> may be a dictionary of standard names to the local names
+        to use instead of the local names of the variables (e.g., for variable
+        transforms or for optional arguments).
         """
         arg_str = ""
         arg_sep = ""
@@ -142,11 +144,6 @@ class CallList(VarDictionary):
                         raise CCPPError(errmsg.format(stdname, clnames))
                     # end if
                     lname = dvar.get_prop_value('local_name')
-                    # Optional variables in the caps are associated with 
-                    # local pointers of <lname>_ptr
-                    if dvar.get_prop_value('optional'):
-                        lname = dummy+'_ptr'
-                    # end if
                 else:
                     cldict = None
                     aref = var.array_ref(local_name=dummy)
@@ -160,14 +157,12 @@ class CallList(VarDictionary):
                 # Are there any variable transforms for this scheme?
                 # If so, change Var's local_name need to local dummy array containing
                 # transformed argument, var_trans_local.
-                if sub_lname_list:
-                    for (var_trans_local, var_lname, sname, rindices, lindices, compat_obj) in sub_lname_list:
-                        if (sname == stdname):
-                            lname = var_trans_local
-                        # end if
-                    # end for
+                # Conditionally allocated variables are passed as local pointers
+                subst_name = bool(sub_lnames) and (stdname in sub_lnames)
+                if subst_name:
+                    lname = sub_lnames[stdname]
                 # end if
-                if is_func_call:
+                if is_func_call and not subst_name:
                     if cldicts is not None:
                         use_dicts = cldicts
                     else:
@@ -1136,6 +1131,7 @@ class Scheme(SuiteObject):
         self.__reverse_transforms = list()
         self._has_run_phase = True
         self.__optional_vars = list()
+        self.__transform_lnames = dict()
         super().__init__(name, context, parent, run_env, active_call_list=True)
 
     def update_group_call_list_variable(self, var):
@@ -1268,16 +1264,14 @@ class Scheme(SuiteObject):
                 # end if
             # end if
             # Are there any forward/reverse transforms for this variable?
-            has_transform = False
             if compat_obj is not None and (compat_obj.has_vert_transforms or
                                            compat_obj.has_unit_transforms or
                                            compat_obj.has_kind_transforms):
                 self.add_var_transform(var, compat_obj, vert_dim)
-                has_transform = True
             # end if
 
             # Is this a conditionally allocated variable?
-            # If so, declare localpointer variable. This is needed to
+            # If so, a local pointer variable is needed to
             # pass inactive (not present) status through the caps.
             if var.get_prop_value('optional'):
                 if dict_var:
@@ -1289,8 +1283,7 @@ class Scheme(SuiteObject):
                         self.update_group_call_list_variable(var_needed)
                     # end for
                 # end if
-                newvar_ptr = var.clone(var.get_prop_value('local_name')+'_ptr')
-                self.__optional_vars.append([dict_var, var, newvar_ptr, has_transform])
+                self.__optional_vars.append((dict_var, var))
             # end if
 
         # end for
@@ -1596,38 +1589,61 @@ class Scheme(SuiteObject):
                 # end if
                 outfile.write('',indent)
 
-    def associate_optional_var(self, dict_var, var, var_ptr, has_transform, cldicts, indent, outfile):
-        """Write local pointer association for optional variables."""
-        if (dict_var):
-            (conditional, _) = dict_var.conditional(cldicts)
-            if (has_transform):
-                lname = var.get_prop_value('local_name')+'_local'
+    def __find_group_variable(self, standard_name):
+        """Return the variable for <standard_name> which is used in our group,
+        i.e., a dummy argument of the group, a local variable of the group, or
+        a suite variable, and the dictionary where it was found."""
+        for vdict in [self.__group.call_list, self.__group] + self.__group.suite_dicts():
+            gvar = vdict.find_variable(standard_name=standard_name,
+                                       any_scope=False)
+            if gvar is not None:
+                return gvar, vdict
+            # end if
+        # end for
+        emsg = "No variable with standard name '{}' in {}"
+        raise ParseInternalError(emsg.format(standard_name, self.__group.name))
+
+    def optional_pointers(self):
+        """Return a list of the local pointers needed to pass optional
+        variables to this Scheme. Each entry is a tuple with the pointer's
+        local name, the name of its target, the condition for the target to be
+        available (None if it is never available), and the Scheme variable.
+        No pointer is needed for a variable which is always available."""
+        pointers = list()
+        cldicts = [self.__group.call_list, self.__group]
+        cldicts.extend(self.__group.suite_dicts())
+        for (dict_var, var) in self.__optional_vars:
+            stdname = var.get_prop_value('standard_name')
+            gvar, vdict = self.__find_group_variable(stdname)
+            target = self.__transform_lnames.get(stdname)
+            if target is None:
+                target = gvar.get_prop_value('local_name')
+                ptr_name = target + '_ptr'
+                # The scheme may only see a section of the variable
+                cvar = self.call_list.find_variable(standard_name=stdname,
+                                                    any_scope=False)
+                vdims = cvar.call_dimstring(var_dicts=cldicts,
+                                            loop_subst=self.run_phase())
+                if _BLANK_DIMS_RE.match(vdims) is None:
+                    target += vdims
+                # end if
             else:
-                lname = var.get_prop_value('local_name')
+                ptr_name = target + '_ptr'
             # end if
-            lname_ptr = var_ptr.get_prop_value('local_name')
-            outfile.write(f"if {conditional} then", indent)
-            outfile.write(f"{lname_ptr} => {lname}", indent+1)
-            outfile.write(f"end if", indent)
-        # end if
-
-    def assign_pointer_to_var(self, dict_var, var, var_ptr, has_transform, cldicts, indent, outfile):
-        """Assign local pointer to variable."""
-        if (dict_var):
-            intent = var.get_prop_value('intent')
-            if (intent == 'out' or intent == 'inout'):
+            if vdict is self.__group.call_list:
+                if dict_var is None:
+                    continue
+                # end if
                 (conditional, _) = dict_var.conditional(cldicts)
-                if (has_transform):
-                    lname = var.get_prop_value('local_name')+'_local'
-                else:
-                    lname = var.get_prop_value('local_name')
+                if conditional.lower() != '.true.':
+                    pointers.append((ptr_name, target, conditional, var))
                 # end if
-                lname_ptr = var_ptr.get_prop_value('local_name')
-                outfile.write(f"if {conditional} then", indent)
-                outfile.write(f"{lname} = {lname_ptr}", indent+1)
-                outfile.write(f"end if", indent)
+            elif (vdict is self.__group) and gvar.get_prop_value('optional'):
+                # Nobody provides this variable
+                pointers.append((ptr_name, target, None, var))
             # end if
-        # end if
+        # end for
+        return pointers
 
     def add_var_transform(self, var, compat_obj, vert_dim):
         """Register any variable transformation needed by <var> for this Scheme.
@@ -1639,7 +1655,25 @@ class Scheme(SuiteObject):
         # Do not let the Group manage this variable. Handle local var
         # when writing Group.
         prop_dict = var.copy_prop_dict()
-        prop_dict['local_name'] = var.get_prop_value('local_name')+'_local'
+        lname = var.get_prop_value('local_name')+'_local'
+        # This name may be in use for the transform of a different variable
+        # or for a different transform of the same variable.
+        index = 0
+        found = False
+        while True:
+            prop_dict['local_name'] = f"{lname}{index}" if index else lname
+            lvars = [x for x in self.__group.transform_locals
+                     if x.get_prop_value('local_name').lower() == prop_dict['local_name'].lower()]
+            if not lvars:
+                break
+            # end if
+            if all([lvars[0].get_prop_value(x) == var.get_prop_value(x)
+                    for x in ('standard_name', 'type', 'kind', 'dimensions', 'optional')]):
+                found = True
+                break
+            # end if
+            index += 1
+        # end while
         # This is a local variable.
         if 'intent' in prop_dict:
             del prop_dict['intent']
@@ -1648,7 +1682,7 @@ class Scheme(SuiteObject):
                               ParseSource(_API_SOURCE_NAME,
                                           _API_LOCAL_VAR_NAME, var.context),
                               self.run_env)
-        found = self.__group.find_variable(source_var=local_trans_var, any_scope=False)
+        self.__transform_lnames[var.get_prop_value('standard_name')] = prop_dict['local_name']
         if not found:
             lmsg = "Adding new local variable, '{}', for variable transform"
             self.run_env.logger.info(lmsg.format(local_trans_var.get_prop_value('local_name')))
@@ -1748,6 +1782,21 @@ class Scheme(SuiteObject):
         # end if
         outfile.write(stmt, indent)
 
+    def __suite_var_indices(self, gvar, indices, cldicts):
+        """Return the array indices of <gvar> to use for the transform indices,
+        <indices>. In the run phase, only the current chunk of a suite variable
+        is passed to the scheme."""
+        if (not indices) or (not self.run_phase()) or (not SuiteObject.is_suite_variable(gvar)):
+            return indices
+        # end if
+        svar = self.call_list.find_variable(standard_name=gvar.get_prop_value('standard_name'),
+                                            any_scope=False)
+        dimstr = svar.call_dimstring(var_dicts=cldicts, explicit_dims=True,
+                                     loop_subst=True)
+        dims = [x.strip() for x in dimstr.strip()[1:-1].split(',')]
+        return [dim if index == ':' else index
+                for index, dim in zip(indices, dims)]
+
     def write(self, outfile, errcode, errmsg, indent):
         # Unused arguments are for consistent write interface
         # pylint: disable=unused-argument
@@ -1756,10 +1805,18 @@ class Scheme(SuiteObject):
         #    or our module
         cldicts = [self.__group, self.__group.call_list]
         cldicts.extend(self.__group.suite_dicts())
+        # Local names of transformed and conditionally allocated variables
+        sub_lnames = dict(self.__transform_lnames)
+        opt_pointers = dict()
+        for (ptr_name, target, conditional, var) in self.optional_pointers():
+            stdname = var.get_prop_value('standard_name')
+            sub_lnames[stdname] = ptr_name
+            opt_pointers[stdname] = (ptr_name, target, conditional)
+        # end for
         my_args = self.call_list.call_string(cldicts=cldicts,
                                              is_func_call=True,
                                              subname=self.subroutine_name,
-                                             sub_lname_list = self.__reverse_transforms)
+                                             sub_lnames=sub_lnames)
         #
         outfile.write('', indent)
         outfile.write('if ({} == 0) then'.format(errcode), indent)
@@ -1793,19 +1850,34 @@ class Scheme(SuiteObject):
             # may have since changed. Here we need to use the standard_name
             # from <var> and replace its local_name with the local_name from the
             # Group's call_list.
-            lvar       = self.__group.call_list.find_variable(standard_name=var_sname)
+            lvar, _    = self.__find_group_variable(var_sname)
             lvar_lname = lvar.get_prop_value('local_name')
+            rindices   = self.__suite_var_indices(lvar, rindices, cldicts)
+            # A conditionally allocated variable may not be available
+            conditional = opt_pointers[var_sname][2] if var_sname in opt_pointers else None
+            if conditional:
+                outfile.write(f"if ({conditional}) then", indent+1)
+            # end if
             tstmt = self.write_var_transform(lvar_lname, dummy, rindices, lindices, compat_obj, outfile, indent+1, False)
+            if conditional:
+                outfile.write("end if", indent+1)
+            # end if
         # end for
         outfile.write('',indent+1)
         #
         # Associate any conditionally allocated variables.
         #
-        if self.__optional_vars:
+        if opt_pointers:
             outfile.write('! Associate conditional variables', indent+1)
-        # end if 
-        for (dict_var, var, var_ptr, has_transform) in self.__optional_vars:
-            tstmt = self.associate_optional_var(dict_var, var, var_ptr, has_transform, cldicts, indent+1, outfile)
+        # end if
+        for (ptr_name, target, conditional) in opt_pointers.values():
+            if conditional:
+                outfile.write(f"if ({conditional}) then", indent+1)
+                outfile.write(f"{ptr_name} => {target}", indent+2)
+                outfile.write("else", indent+1)
+                outfile.write(f"nullify({ptr_name})", indent+2)
+                outfile.write("end if", indent+1)
+            # end if (no else, the pointer is never associated)
         # end for
         # 
         # Write the scheme call.
@@ -1818,18 +1890,6 @@ class Scheme(SuiteObject):
             outfile.write('',indent+1)
         # end if
         #
-        # Copy any local pointers.
-        #
-        first_ptr_declaration=True
-        for (dict_var, var, var_ptr, has_transform) in self.__optional_vars:
-            if first_ptr_declaration: 
-                outfile.write('! Copy any local pointers to dummy/local variables', indent+1)
-                first_ptr_declaration=False
-            # end if
-            tstmt = self.assign_pointer_to_var(dict_var, var, var_ptr, has_transform, cldicts, indent+1, outfile)
-        # end for
-        outfile.write('',indent+1)
-        #
         # Write any forward (post-Scheme) transforms.
         #
         if len(self.__forward_transforms) > 0:
@@ -1841,9 +1901,17 @@ class Scheme(SuiteObject):
             # may have since changed. Here we need to use the standard_name
             # from <var> and replace its local_name with the local_name from the
             # Group's call_list.
-            lvar       = self.__group.call_list.find_variable(standard_name=var_sname)
+            lvar, _    = self.__find_group_variable(var_sname)
             lvar_lname = lvar.get_prop_value('local_name')
+            rindices   = self.__suite_var_indices(lvar, rindices, cldicts)
+            # A conditionally allocated variable may not be available
+            if var_sname in opt_pointers:
+                outfile.write(f"if (associated({opt_pointers[var_sname][0]})) then", indent+1)
+            # end if
             tstmt = self.write_var_transform(lvar_lname, dummy, rindices, lindices, compat_obj, outfile, indent+1, True)
+            if var_sname in opt_pointers:
+                outfile.write("end if", indent+1)
+            # end if
         # end for
         outfile.write('', indent)
         outfile.write('end if', indent)
@@ -2393,7 +2461,6 @@ class Group(SuiteObject):
         allocatable_var_set = set()
         optional_var_set = set()
         pointer_var_set = list()
-        inactive_var_set = set()
         for item in [self]:# + self.parts:
             for var in item.declarations():
                 lname = var.get_prop_value('local_name')
@@ -2408,14 +2475,15 @@ class Group(SuiteObject):
                 else:
                     opt_var = var.get_prop_value('optional')
                     dims = var.get_dimensions()
+                    if opt_var and (not self.call_list.find_variable(standard_name=sname)):
+                        # Optional arguments which are not provided by the host
+                        # are passed as a local null pointer
+                        continue
+                    # end if
                     if (dims is not None) and dims:
                         if opt_var:
-                            if (self.call_list.find_variable(standard_name=sname)):
-                                subpart_optional_vars[lname] = (var, item, opt_var)
-                                optional_var_set.add(lname)
-                            else:
-                                inactive_var_set.add(var)
-                            # end if
+                            subpart_optional_vars[lname] = (var, item, opt_var)
+                            optional_var_set.add(lname)
                         else:
                             subpart_allocate_vars[lname] = (var, item, opt_var)
                             allocatable_var_set.add(lname)
@@ -2425,44 +2493,28 @@ class Group(SuiteObject):
                     # end if
                 # end if
             # end for
-            # All optional dummy variables within group need to have 
-            # an associated pointer array declared. 
-            for cvar in self.call_list.variable_list():
-                opt_var = cvar.get_prop_value('optional')
-                if opt_var:
-                    name = cvar.get_prop_value('local_name')+'_ptr'
-                    kind = cvar.get_prop_value('kind')
-                    dims = cvar.get_dimensions()
-                    if cvar.is_ddt():
+            # All conditionally allocated or unavailable variables which are
+            # passed to an optional dummy argument of a scheme need to have
+            # a local pointer declared.
+            for scheme in self.schemes():
+                for (name, _, _, ivar) in scheme.optional_pointers():
+                    if name in [x[1] for x in pointer_var_set]:
+                        continue
+                    # end if
+                    kind = ivar.get_prop_value('kind')
+                    dims = ivar.get_dimensions()
+                    if ivar.is_ddt():
                         vtype = 'type'
                     else:
-                        vtype = cvar.get_prop_value('type')
+                        vtype = ivar.get_prop_value('type')
                     # end if
                     if dims:
                         dimstr = '(:' + ',:'*(len(dims) - 1) + ')'
                     else:
                         dimstr = ''
                     # end if
-                    pointer_var_set.append([cvar,name,kind,dimstr,vtype])
-                # end if
-            # end for
-            # Any optional arguments that are not requested by the host need to have
-            # a local null pointer passed from the group to the scheme.
-            for ivar in inactive_var_set:
-                name = ivar.get_prop_value('local_name')+'_ptr'
-                kind = ivar.get_prop_value('kind')
-                dims = ivar.get_dimensions()
-                if ivar.is_ddt():
-                    vtype = 'type'
-                else:
-                    vtype = ivar.get_prop_value('type')
-                # end if
-                if dims:
-                    dimstr = '(:' + ',:'*(len(dims) - 1) + ')'
-                else:
-                    dimstr = ''
-                # end if
-                pointer_var_set.append([ivar,name,kind,dimstr,vtype])
+                    pointer_var_set.append([ivar,name,kind,dimstr,vtype])
+                # end for
             # end for
             # Any arguments used in variable transforms before or after the
             # Scheme call? If so, declare local copy for reuse in the Group cap.
-- 
2.43.0


From 02920531a12be5c3314ee4ef595baa79d9851d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:12 +0000
Subject: [PATCH 19/81] fix: dimensions of suite variables and of converted
 arguments had to be arguments of each scheme

---
 scripts/suite_objects.py | 38 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 36 insertions(+), 2 deletions(-)

diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index 949c99e..c06118d 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -19,7 +19,7 @@ from parse_tools import ParseContext, ParseSource, context_string
 from parse_tools import ParseInternalError, CCPPError
 from parse_tools import init_log, set_log_to_null
 from var_props import is_horizontal_dimension, find_horizontal_dimension
-from var_props import find_vertical_dimension
+from var_props import find_vertical_dimension, CCPP_LOOP_DIM_SUBSTS
 from var_props import VarCompatObj
 
 # pylint: disable=too-many-lines
@@ -1157,7 +1157,7 @@ class Scheme(SuiteObject):
                     gvar = None
                 # end if
             if gvar is None:
-                my_group.add_call_list_variable(var)
+                my_group.add_call_list_variable(var, gen_unique=True)
             # end if
         # end if
 
@@ -1213,6 +1213,10 @@ class Scheme(SuiteObject):
                 if not self.has_vertical_dim:
                     self.__has_vertical_dimension = vert_dim is not None
                 # end if
+                # Make sure that the dimensions of a suite variable are available
+                if self.run_phase() and SuiteObject.is_suite_variable(dict_var):
+                    self.__group.add_call_list_dimensions(dict_var)
+                # end if
                 # We have a match, make sure var is in call list
                 if new_dims == vdims:
                     self.add_call_list_variable(var, exists_ok=True)
@@ -1689,6 +1693,9 @@ class Scheme(SuiteObject):
             self.__group.transform_locals.append(local_trans_var)
         # end if
 
+        # The dimensions are needed to allocate the local variable
+        self.__group.add_call_list_dimensions(local_trans_var)
+
         # Create indices (default) for transform.
         lindices   = [':']*var.get_rank()
         rindices   = [':']*var.get_rank()
@@ -2393,6 +2400,33 @@ class Group(SuiteObject):
             self.run_env.logger.debug("{}".format(self))
         # end if
 
+    def add_call_list_dimensions(self, var):
+        """Make sure that the host model variables for the dimensions of <var>
+        are passed to this group."""
+        for dim in var.get_dimensions():
+            if (self.run_phase() and is_horizontal_dimension(dim) and
+                (dim in CCPP_LOOP_DIM_SUBSTS)):
+                dim = CCPP_LOOP_DIM_SUBSTS[dim]
+            # end if
+            for dname in dim.split(':'):
+                if dname in CCPP_CONSTANT_VARS:
+                    continue
+                # end if
+                vdicts = [self.call_list, self] + self.suite_dicts()
+                if any([x.find_variable(standard_name=dname, any_scope=False)
+                        for x in vdicts]):
+                    continue
+                # end if
+                dvar = self.find_variable(standard_name=dname, any_scope=True)
+                if dvar and (dvar.source.ptype not in _API_LOCAL_VAR_TYPES):
+                    self.call_list.add_variable(dvar, self.run_env,
+                                                exists_ok=True,
+                                                gen_unique=True,
+                                                adjust_intent=True)
+                # end if (no else, an integer or an error detected later)
+            # end for
+        # end for
+
     def allocate_dim_str(self, dims, context):
         """Create the dimension string for an allocate statement"""
         rdims = list()
-- 
2.43.0


From bdd54ea2c3f3fb4daac7d88a15de851de02874cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:37 +0000
Subject: [PATCH 20/81] fix: suite variables created in a timestep phase were
 not allocated when used in another phase

---
 scripts/ccpp_suite.py | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/scripts/ccpp_suite.py b/scripts/ccpp_suite.py
index 60e6d50..e639942 100644
--- a/scripts/ccpp_suite.py
+++ b/scripts/ccpp_suite.py
@@ -319,9 +319,14 @@ character(len=16) :: {css_var_name} = '{state}'
                     group.remove_variable(standard_name)
                     # Make sure the variable's dimensions are available
                     # at the init stage (for allocation)
+                    alloc_groups = [self.__suite_init_group.name]
+                    if var.get_prop_value('persistence') == 'timestep':
+                        # Allocated at the beginning of each timestep
+                        alloc_groups.append(self.__timestep_init_group.name)
+                    # end if
                     for group in self.groups:
                         # only add dimension variables to init phase calling list
-                        if group.name == self.__suite_init_group.name:
+                        if group.name in alloc_groups:
                             dims = var.get_dimensions()
                             # replace horizontal loop dimension if necessary
                             for idx, dim in enumerate(dims):
@@ -483,8 +488,23 @@ character(len=16) :: {css_var_name} = '{state}'
                 # end if
             # end for
         # end for
+        self.__resolve_persistence()
         self.__resolve_local_names()
 
+    def __resolve_persistence(self):
+        """A timestep variable which is used after the end of the timestep has
+        to exist until the suite is finalized."""
+        for stdname in list(self.keys()):
+            var = self[stdname]
+            if var.get_prop_value('persistence') != 'timestep':
+                continue
+            # end if
+            if any([x.call_list.find_variable(standard_name=stdname, any_scope=False)
+                    for x in self.__suite_final_group.schemes()]):
+                self[stdname] = var.clone({'persistence':'run'})
+            # end if
+        # end for
+
     def __resolve_local_names(self):
         """Make sure that the local names of the variables which are managed
         by this suite or by one of its groups do not collide with the local
-- 
2.43.0


From 20ce912279e78d31acca9704cc6e599024f53d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:16 +0000
Subject: [PATCH 21/81] fix: grouping a scheme variable changed the scheme
 header used by other suites

Group.manage_variable replaced dimensions in the list owned by the scheme's
metadata. A second suite which needs the same variable then looked for the
dimensions of the first suite and failed.
---
 scripts/suite_objects.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index c06118d..ef65c4c 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -2315,7 +2315,8 @@ class Group(SuiteObject):
         modifications to the variable properties so that it is
         allocated appropriately"""
         # Need new prop dict to eliminate unwanted properties (e.g., intent)
-        vdims = newvar.get_dimensions()
+        # and a new dimensions list, <newvar> is shared with other suites
+        vdims = list(newvar.get_dimensions())
         # Look for dimensions where we have a loop substitution and replace
         # with the correct size
         if self.run_phase():
-- 
2.43.0


From f61c9d1fd73b668f697c153364f14ec72ab313b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:33 +0000
Subject: [PATCH 22/81] fix: a real kind differing between host and scheme gave
 caps that do not compile

The dummy argument of the suite group was declared with the kind of the first
scheme using it, while host data is passed and the kind conversion is done
between the group and the scheme. Declare it with the host's kind, units and
orientation; this also allows two schemes of a group to use different units
which cannot be converted into each other directly.
---
 scripts/suite_objects.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index ef65c4c..a759e07 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -920,6 +920,19 @@ class SuiteObject(VarDictionary):
             else:
                 sdict = {'dimensions':new_dict_dims}
             # end if
+            # The caller passes the variable as it was declared in the
+            # dictionary, any transformation is done for the scheme call.
+            if var.get_prop_value('type') == dict_var.get_prop_value('type'):
+                props = ['units', 'top_at_one']
+                if not var.is_ddt() and (var.get_prop_value('type') != 'character'):
+                    props.append('kind')
+                # end if
+                for prop in props:
+                    if var.get_prop_value(prop) != dict_var.get_prop_value(prop):
+                        sdict[prop] = dict_var.get_prop_value(prop)
+                    # end if
+                # end for
+            # end if
             found_var = self.parent.add_variable_to_call_tree(var,
                                                               subst_dict=sdict)
             if not match:
-- 
2.43.0


From 19ea914560bb9247354b66b434b11c39c6289c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:34 +0000
Subject: [PATCH 23/81] fix: references to a section of a host module array
 crashed capgen or did not compile

An array reference in a host module table which follows its array ended in
'parent already set', and the host cap tried to use the section instead of the
array.
---
 scripts/host_model.py | 3 ++-
 scripts/metavar.py    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/scripts/host_model.py b/scripts/host_model.py
index c3beb44..232d8b6 100644
--- a/scripts/host_model.py
+++ b/scripts/host_model.py
@@ -195,7 +195,8 @@ class HostModel(VarDictionary):
             module = self.host_variable_module(name)
             used = self.__used_variables and (name in self.__used_variables)
             if module and used and (module != cap_modname):
-                varset.add((module, name))
+                # Only the array of an array reference can be used
+                varset.add((module, name.split('(')[0].strip()))
             # No else, either no module or a zero-length module name
             # End if
         # End for
diff --git a/scripts/metavar.py b/scripts/metavar.py
index 95ff5f2..e1eaf2c 100755
--- a/scripts/metavar.py
+++ b/scripts/metavar.py
@@ -1698,7 +1698,8 @@ class VarDictionary(OrderedDict):
         if aref is not None:
             pname = aref.group(1).strip()
             pvar = self.find_local_name(pname)
-            if pvar is not None:
+            # The parent may be known from another dictionary (metadata table)
+            if (pvar is not None) and (newvar.parent is not pvar):
                 newvar.parent = pvar
             # end if
         # end if
-- 
2.43.0


From 132940ce6ea3387843d7e0a1d0a3b56ff62fbe6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:22 +0000
Subject: [PATCH 24/81] fix: local variables for conversions and optional
 arguments collided or were not targets

The names <arg>_local and <name>_ptr were not checked against the other names
of the group, an optional scalar with a conversion was not a target, and the
debug checks used host names in the conditions of conditional variables.
---
 scripts/ccpp_suite.py    |  3 ++
 scripts/metavar.py       |  6 +++-
 scripts/suite_objects.py | 70 ++++++++++++++++++++++++++++++++++++++--
 3 files changed, 75 insertions(+), 4 deletions(-)

diff --git a/scripts/ccpp_suite.py b/scripts/ccpp_suite.py
index e639942..e98e137 100644
--- a/scripts/ccpp_suite.py
+++ b/scripts/ccpp_suite.py
@@ -531,6 +531,9 @@ character(len=16) :: {css_var_name} = '{state}'
                 Suite.__rename_variable(self, var, used_all)
             # end if
         # end for
+        for group in self.groups:
+            group.resolve_transform_names()
+        # end for
 
     @staticmethod
     def __rename_variable(vdict, var, used_names):
diff --git a/scripts/metavar.py b/scripts/metavar.py
index e1eaf2c..38c0e75 100755
--- a/scripts/metavar.py
+++ b/scripts/metavar.py
@@ -1104,7 +1104,11 @@ class Var:
                 intent_str = f"intent({intent}){' '*(5 - len(intent))}"
             # end if
         elif not dummy:
-            intent_str = ' '*20
+            if target:
+                intent_str = 'target' + ' '*14
+            else:
+                intent_str = ' '*20
+            # end if
         else:
             intent_str = ' '*13
         # end if
diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index a759e07..0d6c841 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -1491,7 +1491,8 @@ class Scheme(SuiteObject):
         # end if
 
         # Get the condition on which the variable is active
-        (conditional, _) = var.conditional(cldicts)
+        # (the variables of this condition are arguments of the group)
+        (conditional, _) = var.conditional([self.__group.call_list] + cldicts)
 
         # For scalars, assign to internal_var variable if the variable intent is in/inout
         if not dimensions:
@@ -1635,7 +1636,7 @@ class Scheme(SuiteObject):
             target = self.__transform_lnames.get(stdname)
             if target is None:
                 target = gvar.get_prop_value('local_name')
-                ptr_name = target + '_ptr'
+                ptr_name = self.__group.pointer_local_name(target)
                 # The scheme may only see a section of the variable
                 cvar = self.call_list.find_variable(standard_name=stdname,
                                                     any_scope=False)
@@ -1645,7 +1646,7 @@ class Scheme(SuiteObject):
                     target += vdims
                 # end if
             else:
-                ptr_name = target + '_ptr'
+                ptr_name = self.__group.pointer_local_name(target)
             # end if
             if vdict is self.__group.call_list:
                 if dict_var is None:
@@ -1662,6 +1663,24 @@ class Scheme(SuiteObject):
         # end for
         return pointers
 
+    def rename_transform_local(self, old_name, new_name):
+        """Change the name of a local variable used for transforms"""
+        for stdname, lname in self.__transform_lnames.items():
+            if lname == old_name:
+                self.__transform_lnames[stdname] = new_name
+            # end if
+        # end for
+        for transform in self.__reverse_transforms:
+            if transform[0] == old_name:
+                transform[0] = new_name
+            # end if
+        # end for
+        for transform in self.__forward_transforms:
+            if transform[2] == old_name:
+                transform[2] = new_name
+            # end if
+        # end for
+
     def add_var_transform(self, var, compat_obj, vert_dim):
         """Register any variable transformation needed by <var> for this Scheme.
         For any transformation identified in <compat_obj>, create dummy variable
@@ -2770,6 +2789,51 @@ class Group(SuiteObject):
         """Return this Group's suite"""
         return self.parent
 
+    def local_names(self):
+        """Return the set of all (lower case) variable names which are known in
+        this Group, except for the names of the local variables used for
+        transforms and optional arguments"""
+        names = set()
+        for vdict in [self.call_list, self] + self.suite_dicts():
+            names |= {x.get_prop_value('local_name').lower()
+                      for x in vdict.variable_list()}
+        # end for
+        return names
+
+    def resolve_transform_names(self):
+        """Make sure that the local variables used for transforms have names
+        which differ from all other names in this Group"""
+        used = self.local_names()
+        tnames = {x.get_prop_value('local_name').lower()
+                  for x in self.transform_locals}
+        for index, var in enumerate(self.transform_locals):
+            lname = var.get_prop_value('local_name')
+            if lname.lower() in used:
+                count = 1
+                while f"{lname}_{count}".lower() in (used | tnames):
+                    count += 1
+                # end while
+                new_name = f"{lname}_{count}"
+                tnames.add(new_name.lower())
+                self.transform_locals[index] = var.clone(new_name)
+                for scheme in self.schemes():
+                    scheme.rename_transform_local(lname, new_name)
+                # end for
+            # end if
+        # end for
+
+    def pointer_local_name(self, target):
+        """Return the name of the local pointer to the variable, <target>"""
+        used = self.local_names() | {x.get_prop_value('local_name').lower()
+                                     for x in self.transform_locals}
+        name = target + '_ptr'
+        count = 1
+        while name.lower() in used:
+            name = f"{target}_ptr_{count}"
+            count += 1
+        # end while
+        return name
+
     def suite_dicts(self):
         """Return a list of this Group's Suite's dictionaries"""
         return self.suite.suite_dicts()
-- 
2.43.0


From a012013a74ed53da906b0505478a7098de6bc5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:11 +0000
Subject: [PATCH 25/81] fix: run phase schemes were given the wrong chunk of
 the suite variables they create

A scheme which creates a suite variable in the run phase was called with
columns 1 to the size of the chunk instead of the chunk's columns.
---
 scripts/suite_objects.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index 0d6c841..93e3f67 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -171,6 +171,9 @@ class CallList(VarDictionary):
                     run_phase = self.routine.run_phase()
                     # We only need dimensions for suite variables in run phase
                     need_dims = SuiteObject.is_suite_variable(dvar) and run_phase
+                    if need_dims:
+                        var = SuiteObject.chunk_variable(var)
+                    # end if
                     vdims = var.call_dimstring(var_dicts=use_dicts,
                                                explicit_dims=need_dims,
                                                loop_subst=run_phase)
@@ -390,6 +393,19 @@ class SuiteObject(VarDictionary):
         """Return True iff <var> belongs to our Suite"""
         return var and (var.source.ptype == _API_SUITE_VAR_NAME)
 
+    @staticmethod
+    def chunk_variable(var):
+        """Return <var> (or a clone) with dimensions which select the current
+        chunk of a suite variable. The scheme which creates a suite variable
+        knows the size of the chunk but not its location."""
+        dims = ['horizontal_loop_begin:horizontal_loop_end'
+                if x.split(':')[-1] == 'horizontal_loop_extent' else x
+                for x in var.get_dimensions()]
+        if dims != var.get_dimensions():
+            var = var.clone({'dimensions':dims})
+        # end if
+        return var
+
     def is_local_variable(self, var):
         """Return the local variable matching <var> if one is found belonging
         to this object or any of its SuiteObject parents."""
@@ -1830,6 +1846,7 @@ class Scheme(SuiteObject):
         # end if
         svar = self.call_list.find_variable(standard_name=gvar.get_prop_value('standard_name'),
                                             any_scope=False)
+        svar = SuiteObject.chunk_variable(svar)
         dimstr = svar.call_dimstring(var_dicts=cldicts, explicit_dims=True,
                                      loop_subst=True)
         dims = [x.strip() for x in dimstr.strip()[1:-1].split(',')]
-- 
2.43.0


From 12b06e058c30566a1f1d020bf551ad0fa2b4d8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:34 +0000
Subject: [PATCH 26/81] fix: a suite variable dimensioned by the loop extent
 had to follow the extent in the argument list

---
 scripts/suite_objects.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index 93e3f67..79007e3 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -2369,6 +2369,13 @@ class Group(SuiteObject):
         # Look for dimensions where we have a loop substitution and replace
         # with the correct size
         if self.run_phase():
+            # The scheme may not (or not yet) have asked for the loop extent
+            for subdim in [x for dim in vdims for x in dim.split(':')]:
+                vmatch = VarDictionary.loop_var_match(subdim)
+                if vmatch is not None:
+                    self.add_variable_to_call_tree(None, vmatch=vmatch)
+                # end if
+            # end for
             hdims = [x.missing_stdname for x in self._loop_var_matches]
         else:
             # Do not do loop substitutions in full phases
-- 
2.43.0


From d2209bf0ffee570ba4bd8711713cbe6dacd6e50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:17 +0000
Subject: [PATCH 27/81] fix: schemes were allowed to modify protected variables

---
 scripts/suite_objects.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index 79007e3..387a69f 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -930,6 +930,13 @@ class SuiteObject(VarDictionary):
                 errmsg += ", {}".format(sname)
                 raise CCPPError(errmsg)
             # end if
+            # A protected variable may not be modified by a scheme
+            if dict_var.get_prop_value('protected') and (var.get_prop_value('intent') != 'in'):
+                errmsg = "Protected variable {} may not be modified, intent = {}{}"
+                raise CCPPError(errmsg.format(vstdname,
+                                              var.get_prop_value('intent'),
+                                              context_string(var.context)))
+            # end if
             # Add the variable to the parent call tree
             if dict_dims == new_dict_dims:
                 sdict = {}
-- 
2.43.0


From acb3d4cdd7b72fe8fe5cd97e3f173de531f785b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:17 +0000
Subject: [PATCH 28/81] fix: kind conversions of integer and logical variables
 and double precision declarations did not compile

---
 scripts/metavar.py   |  3 +++
 scripts/var_props.py | 26 ++++++++++++++++++++++++--
 2 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/scripts/metavar.py b/scripts/metavar.py
index 38c0e75..2e533d6 100755
--- a/scripts/metavar.py
+++ b/scripts/metavar.py
@@ -1048,6 +1048,9 @@ class Var:
             vtype = self.get_prop_value('type')
         # end if
         kind = self.get_prop_value('kind')
+        if vtype.lower() == 'double precision':
+            kind = '' # Not legal for this type
+        # end if
         name = self.get_prop_value('local_name')
         aref = self.array_ref(local_name=name)
         if aref is not None:
diff --git a/scripts/var_props.py b/scripts/var_props.py
index fcbed74..0bd2455 100755
--- a/scripts/var_props.py
+++ b/scripts/var_props.py
@@ -25,6 +25,11 @@ from parse_tools import ParseInternalError, ParseSyntaxError, CCPPError
 ###############################################################################
 _REAL_SUBST_RE = re.compile(r"(.*\d)p(\d.*)")
 _HDIM_TEMPNAME = '_CCPP_HORIZ_DIM'
+# Fortran intrinsic functions to convert a variable to another kind
+_KIND_CONVERSIONS = {'real':'real', 'integer':'int', 'logical':'logical',
+                     'complex':'cmplx'}
+# Types of variables which may be converted to other units
+_UNIT_CONVERSION_TYPES = ['real', 'integer', 'complex', 'double precision']
 
 ###############################################################################
 # Supported horizontal dimensions (should be defined in CCPP_STANDARD_VARS)
@@ -872,6 +877,7 @@ class VarCompatObj:
         self.__equiv = True   # No transformation required
         self.__compat = True  # Callable with transformation
         self.__stdname = var1_stdname
+        self.__type = var1_type.lower()
         self.__v1_context = v1_context
         self.__v2_context = v2_context
         self.__v1_kind = var1_kind
@@ -944,6 +950,10 @@ class VarCompatObj:
                                                                      var2_kind,
                                                                      run_env)
                     self.__equiv = self.__kind_transforms is None
+                    if (self.__kind_transforms is not None) and (self.__type not in _KIND_CONVERSIONS):
+                        self.__compat = False
+                        incompat_reason.append("kinds")
+                    # end if
                 # end if
             # end if
         # end if
@@ -972,6 +982,12 @@ class VarCompatObj:
             elif var1_units != var2_units:
                 # Try to find a set of unit conversions
                 self.__equiv = False
+                if self.__type not in _UNIT_CONVERSION_TYPES:
+                    emsg = "Unsupported unit conversion, '{}' to '{}' for '{}'"
+                    raise ParseSyntaxError(emsg.format(var1_units, var2_units,
+                                                       self.__stdname),
+                                           context=v2_context)
+                # end if
                 self.__unit_transforms = self._get_unit_convstrs(var1_units,
                                                                  var2_units)
             # end if
@@ -1030,7 +1046,7 @@ class VarCompatObj:
 
         if self.has_kind_transforms:
             kind = self.__kind_transforms[1]
-            rhs_term = f"real({rhs_term}, {kind})"
+            rhs_term = self._kind_conversion(rhs_term, kind)
         else:
             kind = ''
         # end if
@@ -1075,7 +1091,7 @@ class VarCompatObj:
 
         if self.has_kind_transforms:
             kind = self.__kind_transforms[0]
-            rhs_term = f"real({rhs_term}, {kind})"
+            rhs_term = self._kind_conversion(rhs_term, kind)
         else:
             kind = ''
         # end if
@@ -1089,6 +1105,12 @@ class VarCompatObj:
         # end if
         return f"{lhs_term} = {rhs_term}"
 
+    def _kind_conversion(self, term, kind):
+        """Return the Fortran expression which converts <term> to <kind>
+        (or to the default kind if <kind> is empty)."""
+        kind_str = f", {kind}" if kind else ""
+        return f"{_KIND_CONVERSIONS[self.__type]}({term}{kind_str})"
+
     def _get_kind_convstrs(self, var1_kind, var2_kind, run_env):
         """Attempt to determine if no transformation is required (i.e., if
            <var1_kind> and <var2_kind> will be the same at runtime. If so,
-- 
2.43.0


From 793bfce320d970351495adcff1691881bcf9f0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:17 +0000
Subject: [PATCH 29/81] fix: vertical loops and suite variables with other
 dimensions gave wrong or illegal calls

---
 scripts/suite_objects.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index 387a69f..39586c5 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -900,6 +900,26 @@ class SuiteObject(VarDictionary):
             # Therefore, we have to use the declaration dimensions in the call.
             found_var = True
             new_vdims = dict_var.get_dimensions()
+            if vdims:
+                args = self.parent.match_dimensions(vdims, new_vdims)
+                match, need_dims, _, missing_vert, perm, err = args
+                if (perm is not None) or not (match or missing_vert):
+                    if perm is not None:
+                        err = "{nname}{nctx} and {hname}{hctx} have different dimensions"
+                    # end if
+                    raise CCPPError(err.format(nname=var.get_prop_value('local_name'),
+                                               nctx=context_string(var.context),
+                                               hname=dict_var.get_prop_value('local_name'),
+                                               hctx=context_string(dict_var.context)))
+                # end if
+                found_var = match
+                _, vdim_index = find_vertical_dimension(new_vdims)
+                if match and (var_vdim is None) and (vdim_index >= 0):
+                    # Select the current level of the vertical loop
+                    new_vdims = list(new_vdims)
+                    new_vdims[vdim_index] = need_dims[vdim_index]
+                # end if
+            # end if
         else:
             # Check dimensions
             dict_dims = dict_var.get_dimensions()
@@ -2080,6 +2100,11 @@ class VerticalLoop(SuiteObject):
             emsg = 'No variable found for vertical loop dimension {}'
             raise ParseInternalError(emsg.format(self._dim_name))
         # end if
+        if not SuiteObject.is_suite_variable(local_dim):
+            # The dimension has to be passed to the group
+            group.add_call_list_variable(local_dim.clone({'intent':'in'}),
+                                         exists_ok=True)
+        # end if
         self._local_dim_name = local_dim.get_prop_value('local_name')
         emsg = "VerticalLoop local name for '{}'".format(self.name)
         emsg += " is '{}".format(self.dimension_name)
-- 
2.43.0


From 92d85eae198803d3bc6e43e61486740506063064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:30 +0000
Subject: [PATCH 30/81] fix: scheme arguments of another type, rank or
 character length than the variable provided were accepted

---
 scripts/suite_objects.py | 14 ++++++++++++++
 scripts/var_props.py     |  2 +-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index 39586c5..976461d 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -998,6 +998,20 @@ class SuiteObject(VarDictionary):
         if dict_var is not None:
             dict_var = self.parent.find_variable(source_var=var, any_scope=True)
             compat_obj = var.compatible(dict_var, run_env)
+            # An array section may be passed where the host variable has more
+            # dimensions (match_dimensions has checked those), all other
+            # incompatibilities are errors.
+            if (not compat_obj.compat) and (
+                    (not vdims) or
+                    compat_obj.incompat_reason != 'dimensions'):
+                emsg = "{}, {}{}, is incompatible with {}{}: {}"
+                raise CCPPError(emsg.format(vstdname,
+                                            var.get_prop_value('local_name'),
+                                            context_string(var.context),
+                                            dict_var.get_prop_value('local_name'),
+                                            context_string(dict_var.context),
+                                            compat_obj.incompat_reason))
+            # end if
         # end if
         return found_var, dict_var, var_vdim, new_vdims, missing_vert, compat_obj
 
diff --git a/scripts/var_props.py b/scripts/var_props.py
index 0bd2455..c890a4c 100755
--- a/scripts/var_props.py
+++ b/scripts/var_props.py
@@ -1367,7 +1367,7 @@ class VarCompatObj:
             kentries = [x.strip() for x in kind_str.split(',') if x.strip()]
             if len(kentries) == 1:
                 if kentries[0][0:4].lower() == 'len=':
-                    kind_ok = True
+                    kind_ok = ''.join(kentries[0].lower().split())
                 # end if (no else, kind_ok already False)
             # end if (no else, kind_ok already False)
         # end if (no else, kind_ok already False)
-- 
2.43.0


From afb7c78494d3ce088b792a846606c3aa82ea6266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:13 +0000
Subject: [PATCH 31/81] fix: vertical loops with variable conversions, in
 several dimensions or outside of the run phase failed

---
 scripts/suite_objects.py | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index 976461d..2dfe4ff 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -958,7 +958,7 @@ class SuiteObject(VarDictionary):
                                               context_string(var.context)))
             # end if
             # Add the variable to the parent call tree
-            if dict_dims == new_dict_dims:
+            if (dict_dims == new_dict_dims) and (len(vdims) == len(dict_dims)):
                 sdict = {}
             else:
                 sdict = {'dimensions':new_dict_dims}
@@ -1338,10 +1338,11 @@ class Scheme(SuiteObject):
                 # end if
             # end if
             # Are there any forward/reverse transforms for this variable?
-            if compat_obj is not None and (compat_obj.has_vert_transforms or
+            if compat_obj is not None and ((compat_obj.has_vert_transforms and
+                                            (vert_dim is not None)) or
                                            compat_obj.has_unit_transforms or
                                            compat_obj.has_kind_transforms):
-                self.add_var_transform(var, compat_obj, vert_dim)
+                self.add_var_transform(var, compat_obj, vert_dim, new_dims)
             # end if
 
             # Is this a conditionally allocated variable?
@@ -1362,6 +1363,21 @@ class Scheme(SuiteObject):
 
         # end for
         if self.needs_vertical is not None:
+            obj = self.parent
+            while obj is not None:
+                if isinstance(obj, VerticalLoop):
+                    errmsg = "{} needs loops over {} and {}"
+                    raise CCPPError(errmsg.format(self.subroutine_name, obj.name,
+                                                  self.needs_vertical))
+                # end if
+                obj = obj.parent
+            # end while
+            # The analysis is started again in the loop
+            self.__forward_transforms.clear()
+            self.__reverse_transforms.clear()
+            self.__transform_lnames.clear()
+            self.__optional_vars.clear()
+            self.__var_debug_checks.clear()
             self.parent.add_part(self, replace=True) # Should add a vloop
             if isinstance(self.parent, VerticalLoop):
                 # Restart the loop analysis
@@ -1738,8 +1754,10 @@ class Scheme(SuiteObject):
             # end if
         # end for
 
-    def add_var_transform(self, var, compat_obj, vert_dim):
+    def add_var_transform(self, var, compat_obj, vert_dim, call_dims):
         """Register any variable transformation needed by <var> for this Scheme.
+        <vert_dim> is the vertical dimension of <var> (or None) and <call_dims>
+        are the dimensions used to pass it.
         For any transformation identified in <compat_obj>, create dummy variable
         from <var> to perform the transformation. Determine the indices needed
         for the transform and save for use during write stage"""
@@ -1815,6 +1833,13 @@ class Scheme(SuiteObject):
            else:
                rindices[vdim] = sname+':'+vname
            # end if
+        else:
+            # In a vertical loop, only the current level is transformed
+            for index, dim in enumerate(call_dims):
+                if dim in ('vertical_layer_index', 'vertical_interface_index'):
+                    rindices.insert(index, dim)
+                # end if
+            # end for
         # end if
 
         # If needed, modify horizontal dimension for loop substitution.
-- 
2.43.0


From 4b8441fc7d8c809854da7aaeff602926e4630a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:56 +0000
Subject: [PATCH 32/81] fix: schemes after a vertical loop, nested vertical
 loops and optional arguments in vertical loops failed

---
 scripts/metavar.py       |  4 +++-
 scripts/suite_objects.py | 42 +++++++++++++++++++++++++---------------
 2 files changed, 29 insertions(+), 17 deletions(-)

diff --git a/scripts/metavar.py b/scripts/metavar.py
index 2e533d6..bb1fc2c 100755
--- a/scripts/metavar.py
+++ b/scripts/metavar.py
@@ -26,6 +26,7 @@ from parse_tools import ParseInternalError, ParseSyntaxError, CCPPError
 from parse_tools import FORTRAN_CONDITIONAL_REGEX_WORDS, FORTRAN_CONDITIONAL_REGEX
 from var_props import CCPP_LOOP_DIM_SUBSTS, VariableProperty, VarCompatObj
 from var_props import find_horizontal_dimension, find_vertical_dimension
+from var_props import is_vertical_dimension
 from var_props import standard_name_to_long_name, default_kind_val
 
 ##############################################################################
@@ -612,7 +613,8 @@ class Var:
                 dstdnames = dim.split(':')
                 add_dims = explicit_dims or (len(dstdnames) == 1)
                 dvar = None
-                if add_dims and loop_subst:
+                # The current level of a vertical loop is selected explicitly
+                if add_dims and loop_subst and (not is_vertical_dimension(dim)):
                     for vdict in var_dicts:
                         dvar = vdict.find_loop_dim_match(dim)
                         if dvar is not None:
diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index 2dfe4ff..528385d 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -741,9 +741,7 @@ class SuiteObject(VarDictionary):
                 # See if the missing vertical dimensions exist
                 missing_vert_dim = None
                 for mstdname in vvmatch.required_stdnames:
-                    mvdim = self.find_variable(standard_name=mstdname,
-                                               any_scope=True)
-                    if not mvdim:
+                    if not self.in_vertical_loop(mstdname):
                         missing_vert_dim = vmatch_dims
                         match = False # Should trigger vertical loop action
                         reason = 'missing vertical dimension'
@@ -1015,6 +1013,17 @@ class SuiteObject(VarDictionary):
         # end if
         return found_var, dict_var, var_vdim, new_vdims, missing_vert, compat_obj
 
+    def in_vertical_loop(self, index_name=None):
+        """Return True if we are in a vertical loop (over <index_name>)"""
+        obj = self
+        while obj is not None:
+            if isinstance(obj, VerticalLoop) and (index_name in (None, obj.name)):
+                return True
+            # end if
+            obj = obj.parent
+        # end while
+        return False
+
     def in_process_split(self):
         """Find out if we are in a process-split region"""
         proc_split = False
@@ -1363,15 +1372,10 @@ class Scheme(SuiteObject):
 
         # end for
         if self.needs_vertical is not None:
-            obj = self.parent
-            while obj is not None:
-                if isinstance(obj, VerticalLoop):
-                    errmsg = "{} needs loops over {} and {}"
-                    raise CCPPError(errmsg.format(self.subroutine_name, obj.name,
-                                                  self.needs_vertical))
-                # end if
-                obj = obj.parent
-            # end while
+            if self.in_vertical_loop():
+                errmsg = "{} needs loops over several vertical dimensions"
+                raise CCPPError(errmsg.format(self.subroutine_name))
+            # end if
             # The analysis is started again in the loop
             self.__forward_transforms.clear()
             self.__reverse_transforms.clear()
@@ -1709,7 +1713,13 @@ class Scheme(SuiteObject):
             target = self.__transform_lnames.get(stdname)
             if target is None:
                 target = gvar.get_prop_value('local_name')
-                ptr_name = self.__group.pointer_local_name(target)
+                base_name = target
+                rank = len(var.get_dimensions())
+                if rank != len(gvar.get_dimensions()):
+                    # Another Scheme may need a pointer to the whole variable
+                    base_name += f'_{rank}d'
+                # end if
+                ptr_name = self.__group.pointer_local_name(base_name)
                 # The scheme may only see a section of the variable
                 cvar = self.call_list.find_variable(standard_name=stdname,
                                                     any_scope=False)
@@ -2443,7 +2453,7 @@ class Group(SuiteObject):
             # The scheme may not (or not yet) have asked for the loop extent
             for subdim in [x for dim in vdims for x in dim.split(':')]:
                 vmatch = VarDictionary.loop_var_match(subdim)
-                if vmatch is not None:
+                if is_horizontal_dimension(subdim) and (vmatch is not None):
                     self.add_variable_to_call_tree(None, vmatch=vmatch)
                 # end if
             # end for
@@ -2818,7 +2828,7 @@ class Group(SuiteObject):
             alloc_str = self.allocate_dim_str(dims, var.context)
             outfile.write(alloc_stmt.format(lname, alloc_str), indent+1)
         # end for
-        for lname in optional_var_set:
+        for lname in sorted(optional_var_set):
             var = subpart_optional_vars[lname][0]
             dims = var.get_dimensions()
             alloc_str = self.allocate_dim_str(dims, var.context)
@@ -2851,7 +2861,7 @@ class Group(SuiteObject):
         for lname in sorted(allocatable_var_set):
             outfile.write('if (allocated({})) {} deallocate({})'.format(lname,' '*(20-len(lname)),lname), indent+1)
         # end for
-        for lname in optional_var_set:
+        for lname in sorted(optional_var_set):
             outfile.write('if (allocated({})) {} deallocate({})'.format(lname,' '*(20-len(lname)),lname), indent+1)
         # end for
         # Nullify local pointers
-- 
2.43.0


From 437f643990be5c615619672ad1cad9b6d056d77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:13 +0000
Subject: [PATCH 33/81] fix: local copies of arguments were rejected unless a
 scheme asked for the loop extent

---
 scripts/suite_objects.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index 528385d..7778459 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -2555,6 +2555,13 @@ class Group(SuiteObject):
                         for x in vdicts]):
                     continue
                 # end if
+                # The schemes may not have asked for the loop extent
+                vmatch = VarDictionary.loop_var_match(dname)
+                if (self.run_phase() and is_horizontal_dimension(dname) and
+                    (vmatch is not None)):
+                    self.add_variable_to_call_tree(None, vmatch=vmatch)
+                    continue
+                # end if
                 dvar = self.find_variable(standard_name=dname, any_scope=True)
                 if dvar and (dvar.source.ptype not in _API_LOCAL_VAR_TYPES):
                     self.call_list.add_variable(dvar, self.run_env,
-- 
2.43.0


From a7e40915f2358c69b7881dd16dd9bc905a409204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:13 +0000
Subject: [PATCH 34/81] fix: variables which nobody provides did not start with
 their default value

---
 scripts/suite_objects.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index 7778459..923fbca 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -1327,6 +1327,7 @@ class Scheme(SuiteObject):
                     # end if
                     # The Group will manage this variable
                     self.__group.manage_variable(var)
+                    self.__group.default_values[vstdname] = def_val
                     # We still need it in our call list (the group uses a clone)
                     self.add_call_list_variable(var)
                 else:
@@ -2403,6 +2404,8 @@ class Group(SuiteObject):
         self._set_state = None
         self._ddt_library = None
         self.transform_locals = list()
+        # Standard names and values of variables with a default value
+        self.default_values = dict()
 
     def phase_match(self, scheme_name):
         """If scheme_name matches the group phase, return the group and
@@ -2857,6 +2860,19 @@ class Group(SuiteObject):
                 # end if dims (do not allocate scalars)
             # end for
         # end if
+        # Variables which nobody provides start with their default value
+        for stdname in sorted(self.default_values):
+            for vdict in [self.call_list, self] + self.suite_dicts():
+                var = vdict.find_variable(standard_name=stdname,
+                                          any_scope=False)
+                if var is not None:
+                    lname = var.get_prop_value('local_name')
+                    outfile.write(f"{lname} = {self.default_values[stdname]}",
+                                  indent+1)
+                    break
+                # end if
+            # end for
+        # end for
         # Write the scheme and subcycle calls
         for item in self.parts:
             item.write(outfile, errcode, errmsg, indent + 1)
-- 
2.43.0


From d8b0018af91124cc84cd84c8b0c5997211ec10ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:13 +0000
Subject: [PATCH 35/81] fix: suite variables of unknown character length were
 accepted

---
 scripts/suite_objects.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index 923fbca..8d3a262 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -2447,6 +2447,14 @@ class Group(SuiteObject):
         """Add <newvar> to our local dictionary making necessary
         modifications to the variable properties so that it is
         allocated appropriately"""
+        kind = newvar.get_prop_value('kind')
+        if (newvar.get_prop_value('type') == 'character' and kind and
+            (kind.replace(' ', '').lower() in ['len=*', '*'])):
+            emsg = "Cannot create {}, {}, of unknown length{}"
+            raise CCPPError(emsg.format(newvar.get_prop_value('standard_name'),
+                                        newvar.get_prop_value('local_name'),
+                                        context_string(newvar.context)))
+        # end if
         # Need new prop dict to eliminate unwanted properties (e.g., intent)
         # and a new dimensions list, <newvar> is shared with other suites
         vdims = list(newvar.get_dimensions())
-- 
2.43.0


From fcda9febabc0baa8de90018c9cce17d765088051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:42 +0000
Subject: [PATCH 36/81] fix: two local variables of a group could get the same
 name

---
 scripts/ccpp_suite.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scripts/ccpp_suite.py b/scripts/ccpp_suite.py
index e98e137..fabeeb3 100644
--- a/scripts/ccpp_suite.py
+++ b/scripts/ccpp_suite.py
@@ -517,9 +517,11 @@ character(len=16) :: {css_var_name} = '{state}'
             used_all = used | {x.get_prop_value('local_name').lower()
                                for x in group.variable_list()}
             for var in group.variable_list():
-                if var.get_prop_value('local_name').lower() in used:
+                lname = var.get_prop_value('local_name').lower()
+                if lname in used:
                     Suite.__rename_variable(group, var, used_all)
                 # end if
+                used.add(lname)
             # end for
             suite_used |= used_all
         # end for
-- 
2.43.0


From e65791802534bae5a4ea4e7e207c93db79b9e777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:42 +0000
Subject: [PATCH 37/81] fix: a failed generation left incomplete caps in a new
 output directory

---
 scripts/ccpp_capgen.py | 49 +++++++++++++++++++++---------------------
 1 file changed, 24 insertions(+), 25 deletions(-)

diff --git a/scripts/ccpp_capgen.py b/scripts/ccpp_capgen.py
index 9eac0ec..75edc83 100755
--- a/scripts/ccpp_capgen.py
+++ b/scripts/ccpp_capgen.py
@@ -658,36 +658,35 @@ def capgen(run_env, return_db=False):
         run_env.logger.debug("schemes = {}".format([x.title
                                                     for x in scheme_headers]))
     # Finally, we can get on with writing suites
-    # Make sure to write to temporary location if files exist in <output_dir>
+    # Write to a temporary staging area so that a failure does not leave
+    # incomplete output
     if not os.path.exists(run_env.output_dir):
         # Try to create output_dir (let it crash if it fails)
         os.makedirs(run_env.output_dir)
-        # Nothing here, use it for output
-        outtemp_dir = run_env.output_dir
-    elif not os.listdir(run_env.output_dir):
-        # Nothing here, use it for output
-        outtemp_dir = run_env.output_dir
-    else:
-        # We need to create a temporary staging area, create it here
-        outtemp_name = "ccpp_temp_scratch_dir"
-        outtemp_dir = os.path.join(run_env.output_dir, outtemp_name)
-        if os.path.exists(outtemp_dir):
-            remove_dir(outtemp_dir, force=True)
-        # end if
-        os.makedirs(outtemp_dir)
     # end if
-    ccpp_api = API(sdfs, host_model, scheme_headers, run_env)
-    cap_filenames = ccpp_api.write(outtemp_dir, run_env)
-    if run_env.generate_host_cap:
-        # Create a cap file
-        cap_module = host_model.ccpp_cap_name()
-        host_files = [write_host_cap(host_model, ccpp_api, cap_module,
-                                     outtemp_dir, run_env)]
-    else:
-        host_files = list()
+    outtemp_name = "ccpp_temp_scratch_dir"
+    outtemp_dir = os.path.join(run_env.output_dir, outtemp_name)
+    if os.path.exists(outtemp_dir):
+        remove_dir(outtemp_dir, force=True)
     # end if
-    # Create the kinds file
-    kinds_file = create_kinds_file(run_env, outtemp_dir)
+    os.makedirs(outtemp_dir)
+    try:
+        ccpp_api = API(sdfs, host_model, scheme_headers, run_env)
+        cap_filenames = ccpp_api.write(outtemp_dir, run_env)
+        if run_env.generate_host_cap:
+            # Create a cap file
+            cap_module = host_model.ccpp_cap_name()
+            host_files = [write_host_cap(host_model, ccpp_api, cap_module,
+                                         outtemp_dir, run_env)]
+        else:
+            host_files = list()
+        # end if
+        # Create the kinds file
+        kinds_file = create_kinds_file(run_env, outtemp_dir)
+    except Exception:
+        remove_dir(outtemp_dir, force=True)
+        raise
+    # end try
     # Move any changed files to output_dir and remove outtemp_dir
     move_modified_files(outtemp_dir, run_env.output_dir,
                         overwrite=run_env.force_overwrite, remove_src=True)
-- 
2.43.0


From 6aa5b4bcbb3ca9e0a1594f8ef52716d97c5e7ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:09 +0000
Subject: [PATCH 38/81] fix: report the variables of a suite completely and the
 parts in suite order

---
 scripts/ccpp_suite.py | 240 ++++++------------------------------------
 1 file changed, 34 insertions(+), 206 deletions(-)

diff --git a/scripts/ccpp_suite.py b/scripts/ccpp_suite.py
index fabeeb3..5ac76e5 100644
--- a/scripts/ccpp_suite.py
+++ b/scripts/ccpp_suite.py
@@ -837,13 +837,13 @@ class API(VarDictionary):
     def write_var_set_loop(ofile, varlist_name, var_list, indent,
                            add_allocate=True, start_index=1, start_var=None):
         """Write code to allocate (if <add_allocate> is True) and set
-        <varlist_name> to <var_list>. Elements of <varlist_name> are set
-        beginning at <start_index>.
+        <varlist_name> to <var_list> (in list order). Elements of
+        <varlist_name> are set beginning at <start_index>.
         """
         if add_allocate:
             ofile.write(f"allocate({varlist_name}({len(var_list)}))", indent)
         # end if
-        for ind, var in enumerate(sorted(var_list)):
+        for ind, var in enumerate(var_list):
             if start_var:
                 ind_str = f"{start_var} + {ind + start_index}"
             else:
@@ -908,7 +908,6 @@ class API(VarDictionary):
         ofile.write("logical {}:: input_vars_use".format(' '*34), 2)
         ofile.write("logical {}:: output_vars_use".format(' '*34), 2)
         ofile.write("logical {}:: struct_elements_use".format(' '*34), 2)
-        ofile.write("integer {}:: num_vars".format(' '*34), 2)
         ofile.write("", 0)
         ename = self._errcode_var.get_prop_value('local_name')
         ofile.write("{} = 0".format(ename), 2)
@@ -987,210 +986,39 @@ class API(VarDictionary):
                     # end if
                 # end for
             # end for
-            # Figure out how many total variables to return and allocate
-            #   variable_list to that size
+            # Collect the variables to return for each kind of request
+            # An input (or output) variable can also be an output (or input)
+            #   variable (e.g., for a different part (group) of the suite).
+            all_vars = [x | y | z for x, y, z
+                        in zip(input_vars, inout_vars, output_vars)]
+            in_vars = [x | y for x, y in zip(input_vars, inout_vars)]
+            out_vars = [x | y for x, y in zip(output_vars, inout_vars)]
             ofile.write(oline.format(else_str, suite.name), 2)
-            ofile.write("if (input_vars_use .and. output_vars_use) then", 3)
-            have_elems = input_vars[2] or inout_vars[2] or output_vars[2]
-            if have_elems:
-                ofile.write("if (struct_elements_use) then", 4)
-                numvars = len(input_vars[0] | input_vars[2] | inout_vars[0] |
-                              inout_vars[2] | output_vars[0] | output_vars[2])
-                ofile.write("num_vars = {}".format(numvars), 5)
-                ofile.write("else", 4)
-            # end if
-            numvars = len(input_vars[0] | input_vars[1] | inout_vars[0] |
-                          inout_vars[1] | output_vars[0] | output_vars[1])
-            ofile.write("num_vars = {}".format(numvars), 5 if have_elems else 4)
-            if have_elems:
-                ofile.write("end if", 4)
-            # end if
-            ofile.write("else if (input_vars_use) then", 3)
-            have_elems = input_vars[2] or inout_vars[2]
-            if have_elems:
-                ofile.write("if (struct_elements_use) then", 4)
-                numvars = len(input_vars[0] | input_vars[2] |
-                              inout_vars[0] | inout_vars[2])
-                ofile.write("num_vars = {}".format(numvars), 5)
-                ofile.write("else", 4)
-            # end if
-            numvars = len(input_vars[0] | input_vars[1] |
-                          inout_vars[0] | inout_vars[1])
-            ofile.write("num_vars = {}".format(numvars), 5 if have_elems else 4)
-            if have_elems:
-                ofile.write("end if", 4)
-            # end if
-            ofile.write("else if (output_vars_use) then", 3)
-            have_elems = inout_vars[2] or output_vars[2]
-            if have_elems:
-                ofile.write("if (struct_elements_use) then", 4)
-                numvars = len(inout_vars[0] | inout_vars[2] |
-                              output_vars[0] | output_vars[2])
-                ofile.write("num_vars = {}".format(numvars), 5)
-                ofile.write("else", 4)
-            # end if
-            numvars = len(inout_vars[0] | inout_vars[1] |
-                          output_vars[0] | output_vars[1])
-            ofile.write("num_vars = {}".format(numvars), 5 if have_elems else 4)
-            if have_elems:
-                ofile.write("end if", 4)
-            # end if
-            ofile.write("else", 3)
-            ofile.write("num_vars = 0", 4)
-            ofile.write("end if", 3)
-            ofile.write("allocate(variable_list(num_vars))", 3)
-            # Now, fill in the variable_list array
-            # Start with inout variables
-            elem_start = 1
-            leaf_start = 1
-            leaf_written_set = inout_vars[0].copy()
-            elem_written_set = inout_vars[0].copy()
-            leaf_list = sorted(inout_vars[0])
-            if inout_vars[0] or inout_vars[1] or inout_vars[2]:
-                ofile.write("if (input_vars_use .or. output_vars_use) then", 3)
-                API.write_var_set_loop(ofile, 'variable_list', leaf_list, 4,
-                                       add_allocate=False,
-                                       start_index=leaf_start)
-            # end if
-            leaf_start += len(leaf_list)
-            elem_start += len(leaf_list)
-            # elements which have not been written out
-            elem_list = sorted(inout_vars[2] - elem_written_set)
-            elem_written_set = elem_written_set | inout_vars[2]
-            leaf_list = sorted(inout_vars[1] - leaf_written_set)
-            leaf_written_set = leaf_written_set | inout_vars[1]
-            if elem_list or leaf_list:
-                ofile.write("if (struct_elements_use) then", 4)
-                API.write_var_set_loop(ofile, 'variable_list', elem_list, 5,
-                                       add_allocate=False,
-                                       start_index=elem_start)
-                elem_start += len(elem_list)
-                ofile.write("num_vars = {}".format(elem_start - 1), 5)
-                ofile.write("else", 4)
-                API.write_var_set_loop(ofile, 'variable_list', leaf_list, 5,
-                                       add_allocate=False,
-                                       start_index=leaf_start)
-                leaf_start += len(leaf_list)
-                ofile.write("num_vars = {}".format(leaf_start - 1), 5)
-                ofile.write("end if", 4)
-            else:
-                ofile.write("num_vars = {}".format(len(leaf_written_set)),
-                            4 if leaf_written_set else 3)
-            # end if
-            if inout_vars[0] or inout_vars[1] or inout_vars[2]:
-                ofile.write("end if", 3)
-            # end if
-            # Write input variables
-            leaf_list = sorted(input_vars[0] - leaf_written_set)
-            # Are there any output variables which are also input variables
-            #    (e.g., for a different part (group) of the suite)?
-            # We need to collect them now in case <input_vars> is selected
-            #    but not <output_vars>.
-            leaf_cross_set = output_vars[0] & input_vars[0]
-            simp_cross_set = (output_vars[1] & input_vars[1]) - leaf_cross_set
-            elem_cross_set = (output_vars[2] & input_vars[2]) - leaf_cross_set
-            # Subtract the variables which have already been written out
-            leaf_cross_list = sorted(leaf_cross_set - leaf_written_set)
-            simp_cross_list = sorted(simp_cross_set - leaf_written_set)
-            elem_cross_list = sorted(elem_cross_set - elem_written_set)
-            # Next move back to processing the input variables
-            leaf_written_set = leaf_written_set | input_vars[0]
-            elem_list = sorted(input_vars[2] - elem_written_set)
-            elem_written_set = elem_written_set | input_vars[0] | input_vars[2]
-            have_inputs = elem_list or leaf_list
-            if have_inputs:
-                ofile.write("if (input_vars_use) then", 3)
-                # elements which have not been written out
-            # end if
-            API.write_var_set_loop(ofile, 'variable_list', leaf_list, 4,
-                                   add_allocate=False, start_var="num_vars",
-                                   start_index=1)
-            if leaf_list:
-                ofile.write("num_vars = num_vars + {}".format(len(leaf_list)),
-                            4)
-            # end if
-            leaf_start += len(leaf_list)
-            elem_start += len(leaf_list)
-            leaf_list = input_vars[1].difference(leaf_written_set)
-            leaf_written_set.union(input_vars[1])
-            if elem_list or leaf_list:
-                ofile.write("if (struct_elements_use) then", 4)
-                API.write_var_set_loop(ofile, 'variable_list', elem_list, 5,
-                                       add_allocate=False,
-                                       start_index=elem_start)
-                elem_start += len(elem_list) - 1
-                ofile.write("num_vars = {}".format(elem_start), 5)
-                ofile.write("else", 4)
-                API.write_var_set_loop(ofile, 'variable_list', leaf_list, 5,
-                                       add_allocate=False,
-                                       start_index=leaf_start)
-                leaf_start += len(leaf_list) - 1
-                ofile.write("num_vars = {}".format(leaf_start), 5)
-                ofile.write("end if", 4)
-            # end if
-            if have_inputs:
-                ofile.write("end if", 3)
-            # end if
-            # Write output variables
-            leaf_list = sorted(output_vars[0].difference(leaf_written_set))
-            leaf_written_set = leaf_written_set.union(output_vars[0])
-            elem_written_set = elem_written_set.union(output_vars[0])
-            elem_list = sorted(output_vars[2].difference(elem_written_set))
-            elem_written_set = elem_written_set.union(output_vars[2])
-            have_outputs = elem_list or leaf_list
-            if have_outputs:
-                ofile.write("if (output_vars_use) then", 3)
-            # end if
-            leaf_start = 1
-            API.write_var_set_loop(ofile, 'variable_list', leaf_list, 4,
-                                   add_allocate=False, start_var="num_vars",
-                                   start_index=leaf_start)
-            leaf_start += len(leaf_list)
-            elem_start = leaf_start
-            leaf_list = output_vars[1].difference(leaf_written_set)
-            leaf_written_set.union(output_vars[1])
-            if elem_list or leaf_list:
-                ofile.write("if (struct_elements_use) then", 4)
-                API.write_var_set_loop(ofile, 'variable_list', elem_list, 5,
-                                       add_allocate=False, start_var="num_vars",
-                                       start_index=elem_start)
-                elem_start += len(elem_list)
-                ofile.write("else", 4)
-                API.write_var_set_loop(ofile, 'variable_list', leaf_list, 5,
-                                       add_allocate=False, start_var="num_vars",
-                                       start_index=leaf_start)
-                leaf_start += len(leaf_list)
-                ofile.write("end if", 4)
-            # end if
-            if leaf_cross_list or elem_cross_list:
-                ofile.write("if (.not. input_vars_use) then", 4)
-                API.write_var_set_loop(ofile, 'variable_list', leaf_cross_list,
-                                       5, add_allocate=False,
-                                       start_var="num_vars",
-                                       start_index=leaf_start)
-                leaf_start += len(leaf_cross_list)
-                elem_start += len(leaf_cross_list)
-                if elem_cross_list or simp_cross_list:
-                    ofile.write("if (struct_elements_use) then", 5)
+            req_str = ''
+            for request, rvars in (("input_vars_use .and. output_vars_use",
+                                    all_vars),
+                                   ("input_vars_use", in_vars),
+                                   ("output_vars_use", out_vars)):
+                ofile.write(f"{req_str}if ({request}) then", 3)
+                leaves, arrays, elements = rvars
+                indent = 4
+                if elements:
+                    ofile.write("if (struct_elements_use) then", 4)
                     API.write_var_set_loop(ofile, 'variable_list',
-                                           elem_cross_list, 6,
-                                           add_allocate=False,
-                                           start_var="num_vars",
-                                           start_index=elem_start)
-                    elem_start += len(elem_list)
-                    ofile.write("else", 5)
-                    API.write_var_set_loop(ofile, 'variable_list',
-                                           leaf_cross_list, 6,
-                                           add_allocate=False,
-                                           start_var="num_vars",
-                                           start_index=leaf_start)
-                    leaf_start += len(leaf_list)
-                    ofile.write("end if", 5)
+                                           sorted(leaves | elements), 5)
+                    ofile.write("else", 4)
+                    indent = 5
                 # end if
-                ofile.write("end if", 4)
-            if have_outputs:
-                ofile.write("end if", 3)
-            # end if
+                API.write_var_set_loop(ofile, 'variable_list',
+                                       sorted(leaves | arrays), indent)
+                if elements:
+                    ofile.write("end if", 4)
+                # end if
+                req_str = 'else '
+            # end for
+            ofile.write("else", 3)
+            ofile.write("allocate(variable_list(0))", 4)
+            ofile.write("end if", 3)
             else_str = 'else '
         # end for
         ofile.write("else", 2)
@@ -1229,7 +1057,7 @@ class API(VarDictionary):
                 schemes.update([x.name for x in part.schemes()])
             # end for
             # Write out the list
-            API.write_var_set_loop(ofile, 'scheme_list', schemes, 3)
+            API.write_var_set_loop(ofile, 'scheme_list', sorted(schemes), 3)
             else_str = 'else '
         # end for
         ofile.write("else", 2)
-- 
2.43.0


From f750146fce2dae04ee4365cda9584355cb1a445d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:09 +0000
Subject: [PATCH 39/81] fix: a group reads the variables of the activation
 conditions it evaluates

---
 scripts/suite_objects.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index 8d3a262..0f76a68 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -1365,7 +1365,9 @@ class Scheme(SuiteObject):
                     var_dicts = [self.__group.call_list] + self.__group.suite_dicts()
                     (_, vars_needed) = dict_var.conditional(var_dicts)
                     for var_needed in vars_needed:
-                        self.update_group_call_list_variable(var_needed)
+                        # The group evaluates the condition
+                        var_read = var_needed.clone({'intent':'in'})
+                        self.update_group_call_list_variable(var_read)
                     # end for
                 # end if
                 self.__optional_vars.append((dict_var, var))
@@ -1420,7 +1422,9 @@ class Scheme(SuiteObject):
         else:
             (_, vars_needed) = var.conditional(var_dicts)
             for var_needed in vars_needed:
-                self.update_group_call_list_variable(var_needed)
+                # The group evaluates the condition
+                var_read = var_needed.clone({'intent':'in'})
+                self.update_group_call_list_variable(var_read)
 
         # For scalars and arrays, need an internal_var variable (same kind and type)
         # that we can assign the scalar or the lbound/ubound of the array to.
-- 
2.43.0


From 6ab3d3b22e50efcb60a8f08bf7803a00b2997b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:34 +0000
Subject: [PATCH 40/81] fix: a scheme used in several suites or phases appeared
 several times in the database

---
 scripts/ccpp_datafile.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/scripts/ccpp_datafile.py b/scripts/ccpp_datafile.py
index 6bb5e53..b94dc40 100755
--- a/scripts/ccpp_datafile.py
+++ b/scripts/ccpp_datafile.py
@@ -931,11 +931,19 @@ def _new_scheme_entry(parent, scheme, group_name, scheme_headers):
 ###############################################################################
     """Create a new XML entry for <scheme> under <parent>"""
     sch_name = scheme.name
-    sch_entry = parent.find(sch_name)
+    sch_entry = None
+    for entry in parent:
+        if entry.get("name") == sch_name:
+            sch_entry = entry
+            break
+        # end if
+    # end for
     process = None
-    if not sch_entry:
+    if sch_entry is None:
         sch_entry = ET.SubElement(parent, "scheme")
         sch_entry.set("name", sch_name)
+    else:
+        process = sch_entry.get("process")
     # end if
     if scheme.run_phase():
         sch_tag = group_name
@@ -947,12 +955,15 @@ def _new_scheme_entry(parent, scheme, group_name, scheme_headers):
         raise CCPPDatatableError(emsg.format(sch_name, group_name))
     # end if
     phase_entry = sch_entry.find(sch_tag)
-    if phase_entry:
+    if phase_entry is not None:
         pname = phase_entry.get("name")
         if pname != sch_name:
             emsg = "Scheme entry already exists for {} but name is {}"
             raise CCPPDatatableError(emsg.format(sch_name, pname))
         # end if
+        # This phase (or group) of <scheme> is already in the table
+        return
+    # end if
     # Special case: Scheme w/o run phase.
     if not scheme._has_run_phase:
         return
@@ -990,7 +1001,7 @@ def _new_scheme_entry(parent, scheme, group_name, scheme_headers):
         # end for
     # end if
     if process:
-        sch_entry.set("process", proc)
+        sch_entry.set("process", process)
     # end if
 
 ###############################################################################
-- 
2.43.0


From e20ea590b062240a050f0230f254263a733a9c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:34 +0000
Subject: [PATCH 41/81] fix: protected elements of host derived types were not
 excluded from the variables of a suite

---
 scripts/ccpp_datafile.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/scripts/ccpp_datafile.py b/scripts/ccpp_datafile.py
index b94dc40..2cc2ca3 100755
--- a/scripts/ccpp_datafile.py
+++ b/scripts/ccpp_datafile.py
@@ -1005,9 +1005,13 @@ def _new_scheme_entry(parent, scheme, group_name, scheme_headers):
     # end if
 
 ###############################################################################
-def _new_variable_dictionary(dictionaries, var_dict, dict_type, parent=None):
+def _new_variable_dictionary(dictionaries, var_dict, dict_type, parent=None,
+                             scope=None):
 ###############################################################################
-    """Create a new XML entry for <var_dict> under <dictionaries>."""
+    """Create a new XML entry for <var_dict> under <dictionaries>.
+    If <scope> is present, it is the suite object whose call list <var_dict>
+    is. An argument is protected if the variable <scope> passes for it is
+    protected (e.g., an element of a protected host model DDT)."""
     dict_entry = ET.SubElement(dictionaries, "var_dictionary")
     dict_entry.set("name", var_dict.name)
     dict_entry.set("type", dict_type)
@@ -1022,6 +1026,13 @@ def _new_variable_dictionary(dictionaries, var_dict, dict_type, parent=None):
     vars_entry = ET.SubElement(dict_entry, "variables")
     for var in var_dict.variable_list():
         _new_var_entry(vars_entry, var, full_entry=True)
+        if scope is not None:
+            svar = scope.find_variable(standard_name=var.get_prop_value("standard_name"),
+                                       any_scope=True, search_call_list=False)
+            if (svar is not None) and svar.get_prop_value("protected"):
+                vars_entry[-1].set("protected", "True")
+            # end if
+        # end if
     # end for
 
 ###############################################################################
@@ -1036,7 +1047,8 @@ def _add_suite_object_dictionaries(dictionaries, suite_object):
     if suite_object.call_list:
         dict_type += "_call_list"
         _new_variable_dictionary(dictionaries, suite_object.call_list,
-                                 dict_type, parent=suite_object.parent)
+                                 dict_type, parent=suite_object.parent,
+                                 scope=suite_object)
     # end if
     for part in suite_object.parts:
         _add_suite_object_dictionaries(dictionaries, part)
-- 
2.43.0


From 27814fbfb1e43458d150cc8cac299d02bd6e5134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:14 +0000
Subject: [PATCH 42/81] fix: the static API did not report calls to groups that
 are not initialized

(cherry picked from commit 5f2b235df236669a70738570ce6a71fdfc601f45)
---
 scripts/mkstatic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scripts/mkstatic.py b/scripts/mkstatic.py
index 618d3a8..4267de3 100755
--- a/scripts/mkstatic.py
+++ b/scripts/mkstatic.py
@@ -1009,6 +1009,7 @@ end module {module}
       if (.not.initialized({ccpp_var_name}%ccpp_instance)) then
         write({target_name_msg},'(*(a))') '{name}_timestep_init called before {name}_init'
         {target_name_flag} = 1
+        ierr = 1
         return
       end if
 ''',
@@ -1016,6 +1017,7 @@ end module {module}
       if (.not.initialized({ccpp_var_name}%ccpp_instance)) then
         write({target_name_msg},'(*(a))') '{name}_run called before {name}_init'
         {target_name_flag} = 1
+        ierr = 1
         return
       end if
 ''',
@@ -1023,6 +1025,7 @@ end module {module}
       if (.not.initialized({ccpp_var_name}%ccpp_instance)) then
         write({target_name_msg},'(*(a))') '{name}_timestep_finalize called before {name}_init'
         {target_name_flag} = 1
+        ierr = 1
         return
       end if
 ''',
-- 
2.43.0


From ff880701f94baa54681e08278e30386005119347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:14 +0000
Subject: [PATCH 43/81] fix: finalizing a group for one instance uninitialized
 it for all instances

(cherry picked from commit a7febcb7934679ca8da6ab378a521f854bcd7cb4)
---
 scripts/mkstatic.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/scripts/mkstatic.py b/scripts/mkstatic.py
index 4267de3..fe76cef 100755
--- a/scripts/mkstatic.py
+++ b/scripts/mkstatic.py
@@ -1042,7 +1042,7 @@ end module {module}
         'run' : '',
         'timestep_finalize' : '',
         'finalize' : '''
-      initialized = .false.
+      initialized({ccpp_var_name}%ccpp_instance) = .false.
 ''',
     }
 
@@ -1902,11 +1902,11 @@ end module {module}
                 if subcycle_body:
                     body += subcycle_body_prefix + subcycle_body + subcycle_body_suffix
 
-            #For the init stage, for the case when the suite doesn't have any schemes with init phases,
-            #we still need to add the host-supplied ccpp_t variable to the init group caps so that it is
+            #For the init and finalize stages, for the case when the suite doesn't have any schemes with such
+            #phases, we still need to add the host-supplied ccpp_t variable to the group caps so that it is
             #available for setting the initialized flag for the particular instance being called. Otherwise,
-            #the initialized_set_block for the init phase tries to reference the unavailable ccpp_t variable.
-            if (ccpp_stage == 'init' and not self.parents[ccpp_stage]):
+            #the initialized_set_block for the phase tries to reference the unavailable ccpp_t variable.
+            if (ccpp_stage in ['init', 'finalize'] and not self.parents[ccpp_stage]):
                 ccpp_var.intent = 'in'
                 self.parents[ccpp_stage].update({ccpp_var.standard_name:ccpp_var})
 
-- 
2.43.0


From 3d24bfa0969593fc9a7700ca6eaa5f70d60ad0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:57 +0000
Subject: [PATCH 44/81] fix: prebuild appended the array section to the unit
 conversion formula instead of the variable

(cherry picked from commit 5c12c7934ade832593939e940c6cf023945d6af3)
---
 scripts/mkstatic.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/scripts/mkstatic.py b/scripts/mkstatic.py
index fe76cef..3e51584 100755
--- a/scripts/mkstatic.py
+++ b/scripts/mkstatic.py
@@ -1753,10 +1753,10 @@ end module {module}
                                 actions_in += f'        allocate({tmpvar.local_name}{dim_string_allocate})\n'
                             if var.actions['in']:
                                 # Add unit conversion before entering the subroutine
-                                actions_in += '        {t} = {c}{d}\n'.format(t=tmpvar.local_name,
-                                                                              c=var.actions['in'].format(var=tmpvar.target.replace(dim_string_target_name, ''),
-                                                                                                         kind=kind_string),
-                                                                              d=dim_string)
+                                # (the dimensions belong to the variable, not to the end of the formula)
+                                actions_in += '        {t} = {c}\n'.format(t=tmpvar.local_name,
+                                                                           c=var.actions['in'].format(var=tmpvar.target.replace(dim_string_target_name, '') + dim_string,
+                                                                                                      kind=kind_string))
                                 # If the variable is conditionally allocated, assign pointer
                                 if not conditional == '.true.':
                                     actions_in += '        {p} => {t}{d}\n'.format(p=f"{tmpptr.local_name}_array({CCPP_INTERNAL_VARIABLES[CCPP_THREAD_NUMBER]})%p",
-- 
2.43.0


From bf9e6cf60bc3931f63cb4fa0dc6d00a97e940051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:42 +0000
Subject: [PATCH 45/81] fix: variables of which a scheme sets a part were lost
 on entry to the static caps (intent out)

(cherry picked from commit 54615f7bb43e2c68995f92b111db0ad8792e9a00)
---
 scripts/mkstatic.py | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/scripts/mkstatic.py b/scripts/mkstatic.py
index 3e51584..5a35bbe 100755
--- a/scripts/mkstatic.py
+++ b/scripts/mkstatic.py
@@ -849,9 +849,6 @@ end module {module}
                         if self.parents[ccpp_stage][parent_standard_name].intent == 'in' and \
                             not group.parents[ccpp_stage][parent_standard_name].intent == 'in':
                             self.parents[ccpp_stage][parent_standard_name].intent = 'inout'
-                        elif self.parents[ccpp_stage][parent_standard_name].intent == 'out' and \
-                            not group.parents[ccpp_stage][parent_standard_name].intent == 'out':
-                            self.parents[ccpp_stage][parent_standard_name].intent = 'inout'
                     else:
                         self.parents[ccpp_stage][parent_standard_name] = copy.deepcopy(group.parents[ccpp_stage][parent_standard_name])
         subs = ''
@@ -1298,9 +1295,11 @@ end module {module}
                                     # in var_local_name_define or the actual parent of that variable.
                                     if not parent_standard_name in self.parents[ccpp_stage].keys():
                                         self.parents[ccpp_stage][parent_standard_name] = copy.deepcopy(parent_var)
-                                        # Copy the intent of the actual variable being processed
-                                        if local_name_define == parent_local_name_define:
-                                            self.parents[ccpp_stage][parent_standard_name].intent = var.intent
+                                        # Copy the intent of the actual variable being processed. The variable
+                                        # may be just a part of the parent (or may not be set at all, for example
+                                        # because of an error), the rest must not be lost --> never intent(out)
+                                        if local_name_define == parent_local_name_define and not var.intent == 'in':
+                                            self.parents[ccpp_stage][parent_standard_name].intent = 'inout'
                                         # It's an index for the actual variable being processed --> intent(in)
                                         else:
                                             self.parents[ccpp_stage][parent_standard_name].intent = 'in'
@@ -1311,13 +1310,6 @@ end module {module}
                                         # It's an index for the actual variable being processed, intent is ok
                                         #else:
                                         #   # nothing to do
-                                    elif self.parents[ccpp_stage][parent_standard_name].intent == 'out':
-                                        # Adjust the intent if the actual variable is not intent(out)
-                                        if local_name_define == parent_local_name_define and not var.intent == 'out':
-                                            self.parents[ccpp_stage][parent_standard_name].intent = 'inout'
-                                        # Adjust the intent, because the variable is also used as index variable
-                                        else:
-                                            self.parents[ccpp_stage][parent_standard_name].intent = 'inout'
 
                                     # Record the parent information for this variable (with standard name var_standard_name)
                                     if local_name_define == parent_local_name_define:
@@ -1338,8 +1330,6 @@ end module {module}
                                 # Update intent information if necessary
                                 if self.parents[ccpp_stage][parent_standard_name].intent == 'in' and not var.intent == 'in':
                                     self.parents[ccpp_stage][parent_standard_name].intent = 'inout'
-                                elif self.parents[ccpp_stage][parent_standard_name].intent == 'out' and not var.intent == 'out':
-                                    self.parents[ccpp_stage][parent_standard_name].intent = 'inout'
 
                         # End of iteration (while) loop, increase iteration counter
                         iteration += 1
-- 
2.43.0


From 2dc8f7187638a7e519f0f04487074155a3de0fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:42 +0000
Subject: [PATCH 46/81] fix: prebuild passed optional intent(out) arguments
 that need a unit conversion as absent

(cherry picked from commit f560c58ad0c4286493666d5708f47b6f3dccbfe7)
---
 scripts/mkstatic.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/scripts/mkstatic.py b/scripts/mkstatic.py
index 5a35bbe..c742eb7 100755
--- a/scripts/mkstatic.py
+++ b/scripts/mkstatic.py
@@ -1747,19 +1747,19 @@ end module {module}
                                 actions_in += '        {t} = {c}\n'.format(t=tmpvar.local_name,
                                                                            c=var.actions['in'].format(var=tmpvar.target.replace(dim_string_target_name, '') + dim_string,
                                                                                                       kind=kind_string))
-                                # If the variable is conditionally allocated, assign pointer
-                                if not conditional == '.true.':
-                                    actions_in += '        {p} => {t}{d}\n'.format(p=f"{tmpptr.local_name}_array({CCPP_INTERNAL_VARIABLES[CCPP_THREAD_NUMBER]})%p",
-                                                                                   t=tmpvar.local_name, d=dim_string_allocate)
+                            # If the variable is conditionally allocated, assign pointer
+                            if not conditional == '.true.':
+                                actions_in += '        {p} => {t}{d}\n'.format(p=f"{tmpptr.local_name}_array({CCPP_INTERNAL_VARIABLES[CCPP_THREAD_NUMBER]})%p",
+                                                                               t=tmpvar.local_name, d=dim_string_allocate)
                             if var.actions['out']:
                                 # Add unit conversion after returning from the subroutine
                                 actions_out  += '        {v}{d} = {c}\n'.format(v=tmpvar.target.replace(dim_string_target_name, ''),
                                                                                 d=dim_string,
                                                                                 c=var.actions['out'].format(var=tmpvar.local_name,
                                                                                                             kind=kind_string))
-                                # If the variable is conditionally allocated, nullify pointer
-                                if not conditional == '.true.':
-                                    actions_out += '        nullify({p})\n'.format(p=f"{tmpptr.local_name}_array({CCPP_INTERNAL_VARIABLES[CCPP_THREAD_NUMBER]})%p")
+                            # If the variable is conditionally allocated, nullify pointer
+                            if not conditional == '.true.':
+                                actions_out += '        nullify({p})\n'.format(p=f"{tmpptr.local_name}_array({CCPP_INTERNAL_VARIABLES[CCPP_THREAD_NUMBER]})%p")
 
                             if tmpvar.rank:
                                 # Add deallocate statement if the variable has a rank > 0
-- 
2.43.0


From 9183cf928d14278273941c5ed58165a9066e6120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:42 +0000
Subject: [PATCH 47/81] fix: parts of a conditional that are not understood,
 such as a minus sign, were silently dropped

(cherry picked from commit 358e89b216e7b7f6ebee759803b65f8d721367db)
---
 scripts/common.py                          | 4 ++--
 scripts/metavar.py                         | 4 ++++
 scripts/mkstatic.py                        | 3 +++
 scripts/parse_tools/fortran_conditional.py | 4 ++--
 4 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/scripts/common.py b/scripts/common.py
index f5ba7f1..01fdcc0 100755
--- a/scripts/common.py
+++ b/scripts/common.py
@@ -40,8 +40,8 @@ CCPP_HORIZONTAL_DIMENSION   = 'horizontal_dimension'
 
 FORTRAN_CONDITIONAL_REGEX_WORDS = [' ', '(', ')', '==', '/=', '<=', '>=', '<', '>', '.eqv.', '.neqv.',
                                    '.true.', '.false.', '.lt.', '.le.', '.eq.', '.ge.', '.gt.', '.ne.',
-                                   '.not.', '.and.', '.or.', '.xor.']
-FORTRAN_CONDITIONAL_REGEX = re.compile(r"[\w']+|" + "|".join([word.replace('(','\(').replace(')', '\)') for word in FORTRAN_CONDITIONAL_REGEX_WORDS]))
+                                   '.not.', '.and.', '.or.', '.xor.', '+', '-', '*', '/']
+FORTRAN_CONDITIONAL_REGEX = re.compile(r"[\w']+|" + "|".join([re.escape(word) for word in FORTRAN_CONDITIONAL_REGEX_WORDS]))
 
 CCPP_TYPE = 'ccpp_t'
 
diff --git a/scripts/metavar.py b/scripts/metavar.py
index bb1fc2c..eb675b4 100755
--- a/scripts/metavar.py
+++ b/scripts/metavar.py
@@ -1010,6 +1010,10 @@ class Var:
         # Find all words in the conditional, for each of them look
         # for a matching standard name in the list of known variables
         items = FORTRAN_CONDITIONAL_REGEX.findall(active)
+        if ''.join(items) != active:
+            # Do not silently drop parts of the conditional
+            raise CCPPError(f"Unsupported conditional '{active}'")
+        # end if
         for item in items:
             item = item.lower()
             if item in FORTRAN_CONDITIONAL_REGEX_WORDS:
diff --git a/scripts/mkstatic.py b/scripts/mkstatic.py
index c742eb7..5496095 100755
--- a/scripts/mkstatic.py
+++ b/scripts/mkstatic.py
@@ -1188,6 +1188,9 @@ end module {module}
                             # Find all words in the conditional, for each of them look for a matching
                             # standard name in the list of known variables
                             items = FORTRAN_CONDITIONAL_REGEX.findall(var.active)
+                            if ''.join(items) != var.active:
+                                # Do not silently drop parts of the conditional
+                                raise Exception("Unsupported conditional '{}' for variable {}".format(var.active, var_standard_name))
                             for item in items:
                                 item = item.lower()
                                 if item in FORTRAN_CONDITIONAL_REGEX_WORDS:
diff --git a/scripts/parse_tools/fortran_conditional.py b/scripts/parse_tools/fortran_conditional.py
index b1ec7ee..f364ccc 100755
--- a/scripts/parse_tools/fortran_conditional.py
+++ b/scripts/parse_tools/fortran_conditional.py
@@ -9,5 +9,5 @@ import re
 
 FORTRAN_CONDITIONAL_REGEX_WORDS = [' ', '(', ')', '==', '/=', '<=', '>=', '<', '>', '.eqv.', '.neqv.',
                                    '.true.', '.false.', '.lt.', '.le.', '.eq.', '.ge.', '.gt.', '.ne.',
-                                   '.not.', '.and.', '.or.', '.xor.']
-FORTRAN_CONDITIONAL_REGEX = re.compile(r"[\w']+|" + "|".join([word.replace('(','\(').replace(')', '\)') for word in FORTRAN_CONDITIONAL_REGEX_WORDS]))
+                                   '.not.', '.and.', '.or.', '.xor.', '+', '-', '*', '/']
+FORTRAN_CONDITIONAL_REGEX = re.compile(r"[\w']+|" + "|".join([re.escape(word) for word in FORTRAN_CONDITIONAL_REGEX_WORDS]))
-- 
2.43.0


From e2490185300a102656b006a6cfc347a230746355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:36 +0000
Subject: [PATCH 48/81] fix: prebuild lost the variables of schemes with a
 stage name inside their name

(cherry picked from commit 657c67aacc84e5b9f8d1810f9c78ed2bf4f409dc)
---
 scripts/ccpp_prebuild.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scripts/ccpp_prebuild.py b/scripts/ccpp_prebuild.py
index b8829b6..4010541 100755
--- a/scripts/ccpp_prebuild.py
+++ b/scripts/ccpp_prebuild.py
@@ -381,8 +381,11 @@ def filter_metadata(metadata, arguments, dependencies, schemes_in_files, suites)
             container_string = decode_container(var.container)
             subroutine = container_string[container_string.find('SUBROUTINE')+len('SUBROUTINE')+1:]
             # Replace the full CCPP stage name with the abbreviated version
+            # (only at the end, scheme names may contain stage names)
             for ccpp_stage in CCPP_STAGES.keys():
-                subroutine = subroutine.replace(ccpp_stage, CCPP_STAGES[ccpp_stage])
+                if subroutine.endswith('_' + ccpp_stage):
+                    subroutine = subroutine[:-len(ccpp_stage)] + CCPP_STAGES[ccpp_stage]
+                    break
             for suite in suites:
                 if subroutine in suite.all_subroutines_called:
                     keep = True
-- 
2.43.0


From cf6c31ab14c9058b854bfc4f3479dee4c847615b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:17 +0000
Subject: [PATCH 49/81] fix: static caps did not receive the dimensions a
 scheme requests a variable with

(cherry picked from commit 2b5a9f6ee70bd73df4683043398dd7e0f3460225)
---
 scripts/mkstatic.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/scripts/mkstatic.py b/scripts/mkstatic.py
index 5496095..b6db0c5 100755
--- a/scripts/mkstatic.py
+++ b/scripts/mkstatic.py
@@ -1152,8 +1152,16 @@ end module {module}
                             raise Exception('Variable {standard_name} not defined in host model metadata'.format(
                                                                                 standard_name=var_standard_name))
                         var = metadata_define[var_standard_name][0]
+                        # The dimensions requested by the scheme are used to address the variable
+                        # (dimensions unknown to the host model are dealt with further down)
+                        dim_expressions = list(var.dimensions)
+                        for var_request in metadata_request[var_standard_name]:
+                            if container == var_request.container:
+                                dim_expressions += [ dim_expression for dim_expression in var_request.dimensions
+                                                     if all(dim.lower() in metadata_define.keys()
+                                                            for dim in dim_expression.split(':')) ]
                         # dim_expression can be 'A', '1', '1:A', ...
-                        for dim_expression in var.dimensions:
+                        for dim_expression in dim_expressions:
                             dims = dim_expression.split(':')
                             for dim in dims:
                                 dim = dim.lower()
-- 
2.43.0


From 0699c3287f665a5ce248eb33aff48d9649b78f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:42 +0000
Subject: [PATCH 50/81] fix: prebuild compared only the first request of a
 variable with the host variable

(cherry picked from commit 95f994234a8a7eb2dba4e45ff28c38686ce8e86a)
---
 scripts/ccpp_prebuild.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/scripts/ccpp_prebuild.py b/scripts/ccpp_prebuild.py
index 4010541..fa6e3ba 100755
--- a/scripts/ccpp_prebuild.py
+++ b/scripts/ccpp_prebuild.py
@@ -461,13 +461,14 @@ def compare_metadata(metadata_define, metadata_request):
             logging.error(error_message)
             continue
         # Check that the variable properties are compatible between the model and the schemes;
-        # because we know that all variables in the metadata_request[var_name] list are compatible,
-        # it is sufficient to test the first entry against (the unique) metadata_define[var_name][0].
-        if not metadata_request[var_name][0].compatible(metadata_define[var_name][0]):
+        # it is not sufficient to test the first entry against (the unique) metadata_define[var_name][0],
+        # because being compatible is not transitive (character variables with len=*).
+        incompatible_vars = [ var for var in metadata_request[var_name] if not var.compatible(metadata_define[var_name][0]) ]
+        if incompatible_vars:
             success = False
             error_message = '  incompatible entries in metadata for variable {0}:\n'.format(var_name) +\
                             '    provided:  {0}\n'.format(metadata_define[var_name][0].print_debug()) +\
-                            '    requested: {0}'.format(metadata_request[var_name][0].print_debug())
+                            '    requested: {0}'.format(incompatible_vars[0].print_debug())
             logging.error(error_message)
             continue
         # Check for and register unit conversions if necessary. This must be done for each registered
-- 
2.43.0


From 0d1d27058b3e0f61425eeec0a81b5203e719fc46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:00 +0000
Subject: [PATCH 51/81] fix: prebuild accepted unit conversions of logicals and
 strings and wrote caps that do not compile

(cherry picked from commit ebe1caf00372cd852559543cb48d4be46ca9e5da)
---
 scripts/mkcap.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/scripts/mkcap.py b/scripts/mkcap.py
index 69c2292..993b253 100755
--- a/scripts/mkcap.py
+++ b/scripts/mkcap.py
@@ -17,6 +17,9 @@ from common import STANDARD_VARIABLE_TYPES, STANDARD_CHARACTER_TYPE
 from common import isstring, string_to_python_identifier
 from conversion_tools import unit_conversion
 
+# Types of variables which may be converted to other units
+UNIT_CONVERSION_TYPES = ['real', 'integer', 'complex', 'double precision']
+
 ###############################################################################
 
 class Var(object):
@@ -212,6 +215,12 @@ class Var(object):
             and self.kind == other.kind \
             and self.rank == other.rank
 
+    def _check_unit_conversion_type(self, from_units, to_units):
+        """Raise an exception if the variable is not a number that can be converted"""
+        if self.type not in UNIT_CONVERSION_TYPES:
+            raise Exception('Error, automatic unit conversion from {0} to {1} for {2} in {3} not possible for type {4}'.format(
+                            from_units, to_units, self.standard_name, self.container, self.type))
+
     def convert_to(self, units):
         """Generate action to convert data in the variable's units to other units"""
         function_name = '{0}__to__{1}'.format(string_to_python_identifier(self.units), string_to_python_identifier(units))
@@ -220,6 +229,7 @@ class Var(object):
             logging.info('Automatic unit conversion from {0} to {1} for {2} after returning from {3}'.format(self.units, units, self.standard_name, self.container))
         except AttributeError:
             raise Exception('Error, automatic unit conversion from {0} to {1} for {2} in {3} not implemented'.format(self.units, units, self.standard_name, self.container))
+        self._check_unit_conversion_type(self.units, units)
         conversion = function()
         self._actions['out'] = function()
 
@@ -231,6 +241,7 @@ class Var(object):
             logging.info('Automatic unit conversion from {0} to {1} for {2} before entering {3}'.format(self.units, units, self.standard_name, self.container))
         except AttributeError:
             raise Exception('Error, automatic unit conversion from {1} to {0} for {2} in {3} not implemented'.format(self.units, units, self.standard_name, self.container))
+        self._check_unit_conversion_type(units, self.units)
         conversion = function()
         self._actions['in'] = function()
 
-- 
2.43.0


From 87b7ef1073caf0657a39dcf40c1f51b018ca4146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:25 +0000
Subject: [PATCH 52/81] fix: makefile, cmake and shell snippets of prebuild
 were compared by the makefile snippet only

(cherry picked from commit b64e55ad26e163eb7745a6da8e7059a892f425ad)
---
 scripts/ccpp_prebuild.py | 62 +++++++++++-----------------------------
 1 file changed, 17 insertions(+), 45 deletions(-)

diff --git a/scripts/ccpp_prebuild.py b/scripts/ccpp_prebuild.py
index fa6e3ba..595bff3 100755
--- a/scripts/ccpp_prebuild.py
+++ b/scripts/ccpp_prebuild.py
@@ -577,6 +577,14 @@ def generate_static_api(suites, static_api_dir, namespace):
     os.chdir(BASEDIR)
     return (success, api)
 
+def replace_if_changed(filename, new_filename):
+    """Replace <filename> with <new_filename> unless their contents are the same;
+       <new_filename> is removed in any case"""
+    if os.path.isfile(filename) and filecmp.cmp(filename, new_filename, shallow=False):
+        os.remove(new_filename)
+    else:
+        os.replace(new_filename, filename)
+
 def generate_typedefs_makefile(metadata_define, typedefs_makefile, typedefs_cmakefile, typedefs_sourcefile):
     """Generate list of Fortran modules containing CCPP type/kind definitions,
        and create makefile/cmakefile snippets for host model build system"""
@@ -633,21 +641,9 @@ def generate_typedefs_makefile(metadata_define, typedefs_makefile, typedefs_cmak
     makefile.write(typedefs)
     cmakefile.write(typedefs)
     sourcefile.write(typedefs)
-    if os.path.isfile(typedefs_makefile) and \
-            filecmp.cmp(typedefs_makefile, makefile.filename):
-        os.remove(makefile.filename)
-        os.remove(cmakefile.filename)
-        os.remove(sourcefile.filename)
-    else:
-        if os.path.isfile(typedefs_makefile):
-            os.remove(typedefs_makefile)
-        if os.path.isfile(typedefs_cmakefile):
-            os.remove(typedefs_cmakefile)
-        if os.path.isfile(typedefs_sourcefile):
-            os.remove(typedefs_sourcefile)
-        os.rename(makefile.filename, typedefs_makefile)
-        os.rename(cmakefile.filename, typedefs_cmakefile)
-        os.rename(sourcefile.filename, typedefs_sourcefile)
+    replace_if_changed(typedefs_makefile, makefile.filename)
+    replace_if_changed(typedefs_cmakefile, cmakefile.filename)
+    replace_if_changed(typedefs_sourcefile, sourcefile.filename)
     #
     logging.info('Added {0} typedefs to {1}, {2}, {3}'.format(
            len(typedefs), typedefs_makefile, typedefs_cmakefile, typedefs_sourcefile))
@@ -670,21 +666,9 @@ def generate_schemes_makefile(schemes, schemes_makefile, schemes_cmakefile, sche
     makefile.write(schemes_with_abspath)
     cmakefile.write(schemes_with_abspath)
     sourcefile.write(schemes_with_abspath)
-    if os.path.isfile(schemes_makefile) and \
-            filecmp.cmp(schemes_makefile, makefile.filename):
-        os.remove(makefile.filename)
-        os.remove(cmakefile.filename)
-        os.remove(sourcefile.filename)
-    else:
-        if os.path.isfile(schemes_makefile):
-            os.remove(schemes_makefile)
-        if os.path.isfile(schemes_cmakefile):
-            os.remove(schemes_cmakefile)
-        if os.path.isfile(schemes_sourcefile):
-            os.remove(schemes_sourcefile)
-        os.rename(makefile.filename, schemes_makefile)
-        os.rename(cmakefile.filename, schemes_cmakefile)
-        os.rename(sourcefile.filename, schemes_sourcefile)
+    replace_if_changed(schemes_makefile, makefile.filename)
+    replace_if_changed(schemes_cmakefile, cmakefile.filename)
+    replace_if_changed(schemes_sourcefile, sourcefile.filename)
     #
     logging.info('Added {0} schemes to {1}, {2}, {3}'.format(
            len(schemes_with_abspath), schemes_makefile, schemes_cmakefile, schemes_sourcefile))
@@ -707,21 +691,9 @@ def generate_caps_makefile(caps, caps_makefile, caps_cmakefile, caps_sourcefile,
     makefile.write(caps_with_abspath)
     cmakefile.write(caps_with_abspath)
     sourcefile.write(caps_with_abspath)
-    if os.path.isfile(caps_makefile) and \
-            filecmp.cmp(caps_makefile, makefile.filename):
-        os.remove(makefile.filename)
-        os.remove(cmakefile.filename)
-        os.remove(sourcefile.filename)
-    else:
-        if os.path.isfile(caps_makefile):
-            os.remove(caps_makefile)
-        if os.path.isfile(caps_cmakefile):
-            os.remove(caps_cmakefile)
-        if os.path.isfile(caps_sourcefile):
-            os.remove(caps_sourcefile)
-        os.rename(makefile.filename, caps_makefile)
-        os.rename(cmakefile.filename, caps_cmakefile)
-        os.rename(sourcefile.filename, caps_sourcefile)
+    replace_if_changed(caps_makefile, makefile.filename)
+    replace_if_changed(caps_cmakefile, cmakefile.filename)
+    replace_if_changed(caps_sourcefile, sourcefile.filename)
     #
     logging.info('Added {0} auto-generated caps to {1} and {2}, {3}'.format(
            len(caps_with_abspath), caps_makefile, caps_cmakefile, caps_sourcefile))
-- 
2.43.0


From e9d7ebb122dbd4a5cb423a80bdf2ac86234f247c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:31 +0000
Subject: [PATCH 53/81] fix: cleaning prebuild left the API cmake snippet
 behind and removed other files when paths contain spaces

(cherry picked from commit b9586824494b6b31a138d8333c05bbfecdfd0be3)
---
 scripts/ccpp_prebuild.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/scripts/ccpp_prebuild.py b/scripts/ccpp_prebuild.py
index 595bff3..60f6e2a 100755
--- a/scripts/ccpp_prebuild.py
+++ b/scripts/ccpp_prebuild.py
@@ -5,6 +5,7 @@ import argparse
 import collections
 import copy
 import filecmp
+import glob
 import importlib
 import itertools
 import logging
@@ -13,7 +14,7 @@ import re
 import sys
 
 # CCPP framework imports
-from common import encode_container, decode_container, decode_container_as_dict, execute
+from common import encode_container, decode_container, decode_container_as_dict
 from common import CCPP_STAGES, CCPP_INTERNAL_VARIABLES, CCPP_STATIC_API_MODULE, CCPP_INTERNAL_VARIABLE_DEFINITON_FILE
 from common import STANDARD_VARIABLE_TYPES, STANDARD_INTEGER_TYPE, CCPP_TYPE
 from common import SUITE_DEFINITION_FILENAME_PATTERN
@@ -140,7 +141,7 @@ def clean_files(config, namespace):
         static_api_file = '{api}.F90'.format(api=CCPP_STATIC_API_MODULE+'_'+namespace)
     else:
         static_api_file = '{api}.F90'.format(api=CCPP_STATIC_API_MODULE)
-    # Create list of files to remove, use wildcards where necessary
+    # Create list of files to remove
     files_to_remove = [
         config['typedefs_makefile'],
         config['typedefs_cmakefile'],
@@ -153,13 +154,15 @@ def clean_files(config, namespace):
         config['caps_sourcefile'],
         config['html_vartable_file'],
         config['latex_vartable_file'],
-        os.path.join(config['caps_dir'], 'ccpp_*_cap.F90'),
         os.path.join(config['static_api_dir'], static_api_file),
         config['static_api_sourcefile'],
+        config['static_api_cmakefile'],
         ]
-    # Not very pythonic, but the easiest way w/o importing another Python module
-    cmd = 'rm -vf {0}'.format(' '.join(files_to_remove))
-    execute(cmd)
+    files_to_remove += glob.glob(os.path.join(glob.escape(config['caps_dir']), 'ccpp_*_cap.F90'))
+    for file_to_remove in files_to_remove:
+        if os.path.isfile(file_to_remove):
+            logging.debug('Removing {0}'.format(file_to_remove))
+            os.remove(file_to_remove)
     return success
 
 def get_all_suites(suites_dir):
-- 
2.43.0


From bc87956e4998a9ef8a76a2e967a2268a9db06add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:39 +0000
Subject: [PATCH 54/81] fix: capgen --clean took the datatable for a list of
 files and removed none of the generated files

(cherry picked from commit c9d6d1b0e414d404bcbf54c9d1e1fda72a923862)
---
 scripts/ccpp_capgen.py   | 49 ++++++++++++----------------------------
 scripts/ccpp_datafile.py | 13 +++++++++++
 2 files changed, 28 insertions(+), 34 deletions(-)

diff --git a/scripts/ccpp_capgen.py b/scripts/ccpp_capgen.py
index 75edc83..beb1e27 100755
--- a/scripts/ccpp_capgen.py
+++ b/scripts/ccpp_capgen.py
@@ -16,7 +16,7 @@ import logging
 import re
 # CCPP framework imports
 from ccpp_database_obj import CCPPDatabaseObj
-from ccpp_datafile import generate_ccpp_datatable
+from ccpp_datafile import generate_ccpp_datatable, retrieve_generated_files
 from ccpp_suite import API
 from file_utils import check_for_writeable_file, remove_dir, replace_paths
 from file_utils import create_file_list, move_modified_files
@@ -52,40 +52,21 @@ _CCPP_FRAMEWORK_DDT_TYPES = ["ccpp_hash_table_t",
                              "ccpp_hashable_char_t"]
 
 ###############################################################################
-def delete_pathnames_from_file(capfile, logger):
+def delete_generated_files(datatable_file, logger):
 ###############################################################################
-    """Remove all the filenames found in <capfile>, then delete <capfile>"""
-    root_path = os.path.dirname(os.path.abspath(capfile))
+    """Remove all the files which were generated by the capgen run that
+    created <datatable_file>, then delete <datatable_file>"""
     success = True
-    with open(capfile, 'r') as infile:
-        for line in infile.readlines():
-            path = line.strip()
-            # Skip blank lines and lines which appear to start with a comment.
-            if path and (path[0] != '#') and (path[0] != '!'):
-                # Check for an absolute path
-                if not os.path.isabs(path):
-                    # Assume relative pathnames are relative to pathsfile
-                    path = os.path.normpath(os.path.join(root_path, path))
-                # end if
-                logger.info("Clean: Removing {}".format(path))
-                try:
-                    os.remove(path)
-                except OSError as oserr:
-                    success = False
-                    errmsg = 'Unable to remove {}\n{}'
-                    logger.warning(errmsg.format(path, oserr))
-                # end try
-            # end if (else skip blank or comment line)
-        # end for
-    # end with open
-    logger.info("Clean: Removing {}".format(capfile))
-    try:
-        os.remove(capfile)
-    except OSError as oserr:
-        success = False
-        errmsg = 'Unable to remove {}\n{}'
-        logger.warning(errmsg.format(capfile, oserr))
-    # end try
+    for path in retrieve_generated_files(datatable_file) + [datatable_file]:
+        logger.info("Clean: Removing {}".format(path))
+        try:
+            os.remove(path)
+        except OSError as oserr:
+            success = False
+            errmsg = 'Unable to remove {}\n{}'
+            logger.warning(errmsg.format(path, oserr))
+        # end try
+    # end for
     if success:
         logger.info("ccpp_capgen clean successful, exiting")
     else:
@@ -586,7 +567,7 @@ def clean_capgen(cap_output_file, logger):
     set_log_level(logger, logging.INFO)
     if os.path.exists(cap_output_file):
         logger.info("Cleaning capgen files from {}".format(cap_output_file))
-        delete_pathnames_from_file(cap_output_file, logger)
+        delete_generated_files(cap_output_file, logger)
     else:
         emsg = "Unable to run clean, {} not found"
         logger.error(emsg.format(cap_output_file))
diff --git a/scripts/ccpp_datafile.py b/scripts/ccpp_datafile.py
index 2cc2ca3..243557e 100755
--- a/scripts/ccpp_datafile.py
+++ b/scripts/ccpp_datafile.py
@@ -22,6 +22,7 @@ import os
 import sys
 import xml.etree.ElementTree as ET
 # CCPP framework imports
+from file_utils import KINDS_FILENAME
 from framework_env import CCPPFrameworkEnv
 from metadata_table import UNKNOWN_PROCESS_TYPE
 from metavar import Var
@@ -289,6 +290,18 @@ def _retrieve_ccpp_files(table, file_type=None):
     # end if
     return ccpp_files
 
+###############################################################################
+def retrieve_generated_files(datatable):
+###############################################################################
+    """Return the list of files created by the capgen run which created the
+    file, <datatable>. Framework source files are not part of this list."""
+    table = _read_datatable(datatable)
+    generated_files = [x for x in _retrieve_ccpp_files(table, "utilities")
+                       if os.path.basename(x) == KINDS_FILENAME]
+    generated_files.extend(_retrieve_ccpp_files(table, "host_files"))
+    generated_files.extend(_retrieve_ccpp_files(table, "suite_files"))
+    return generated_files
+
 ###############################################################################
 def _retrieve_process_list(table):
 ###############################################################################
-- 
2.43.0


From 0b049987952ffb1f2ad03060b3eb3fe056b8e0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:50 +0000
Subject: [PATCH 55/81] fix: breaking lines inside long words and literals or
 before trailing comments changed the statement

(cherry picked from commit 813671bd8c1f977619787b3cf95ec1de1b954a0a)
---
 scripts/fortran_tools/fortran_write.py | 112 ++++++++++++-------------
 1 file changed, 55 insertions(+), 57 deletions(-)

diff --git a/scripts/fortran_tools/fortran_write.py b/scripts/fortran_tools/fortran_write.py
index 5b186c1..eec6ec3 100644
--- a/scripts/fortran_tools/fortran_write.py
+++ b/scripts/fortran_tools/fortran_write.py
@@ -90,43 +90,42 @@ end module {module}'''
     ###########################################################################
 
     @staticmethod
-    def _in_quote(test_str):
-        """Return True if <test_str> ends in a character context.
+    def _in_quote(test_str, quote=''):
+        """Return the quote character if <test_str> ends in a character
+        context, otherwise, return an empty string.
+        <quote> is the quote character if <test_str> begins in a character
+        context.
         >>> FortranWriter._in_quote("hi'mom")
-        True
+        "'"
         >>> FortranWriter._in_quote("hi mom")
-        False
+        ''
         >>> FortranWriter._in_quote("'hi mom'")
-        False
+        ''
         >>> FortranWriter._in_quote("'hi"" mom'")
-        False
+        ''
+        >>> FortranWriter._in_quote("hi mom' // 'hi", quote="'")
+        "'"
         """
-        in_single_char = False
-        in_double_char = False
         for char in test_str:
-            if in_single_char:
-                if char == "'":
-                    in_single_char = False
-                # end if
-            elif in_double_char:
-                if char == '"':
-                    in_double_char = False
-                # end if
-            elif char == "'":
-                in_single_char = True
-            elif char == '"':
-                in_double_char = True
+            if quote:
+                if char == quote:
+                    quote = ''
+                # end if (no else, just skip characters inside quotes)
+            elif char in ("'", '"'):
+                quote = char
             # end if
         # end for
-        return in_single_char or in_double_char
+        return quote
 
     ###########################################################################
 
-    def write(self, statement, indent_level, continue_line=False):
+    def write(self, statement, indent_level, continue_line=False, in_quote=''):
         """Write <statement> to the open file, indenting to <indent_level>
         (see self.indent).
         If <continue_line> is True, treat this line as a continuation of
-        a previous statement."""
+        a previous statement.
+        <in_quote> is the quote character if <statement> continues a
+        character context of a previous line."""
         if isinstance(statement, list):
             for stmt in statement:
                 self.write(stmt, indent_level, continue_line)
@@ -139,7 +138,7 @@ end module {module}'''
             istr = self.indent(indent_level, continue_line)
             ostmt = statement.strip()
             is_comment_stmt = ostmt and (ostmt[0] == '!')
-            in_comment = ""
+            comment_start = len(istr) if is_comment_stmt else None
             if ostmt and (ostmt[0] != '&'):
                 # Skip indent for continue that is in the middle of a
                 #    token or a quoted region
@@ -152,26 +151,25 @@ end module {module}'''
                 # Collect pretty break points
                 spaces = list()
                 commas = list()
-                sptr = len(istr)
-                in_single_char = False
-                in_double_char = False
+                # No break in the indent or before the first real character
+                sptr = len(outstr) - len(outstr.lstrip(' &'))
+                quote = in_quote
+                if quote and (ostmt[0] == '&'):
+                    sptr = 1
+                # end if
                 while sptr < line_len:
-                    if in_single_char:
-                        if outstr[sptr] == "'":
-                            in_single_char = False
+                    if quote:
+                        if outstr[sptr] == quote:
+                            quote = ''
                         # End if (no else, just copy stuff in string)
-                    elif in_double_char:
-                        if outstr[sptr] == '"':
-                            in_double_char = False
-                        # End if (no else, just copy stuff in string)
-                    elif outstr[sptr] == "'":
-                        in_single_char = True
-                    elif outstr[sptr] == '"':
-                        in_double_char = True
+                    elif (comment_start is None) and (outstr[sptr] in "'\""):
+                        quote = outstr[sptr]
                     elif outstr[sptr] == '!':
                         # Comment in non-character context
                         spaces.append(sptr-1)
-                        in_comment = "! " # No continue for comment
+                        if comment_start is None:
+                            comment_start = sptr
+                        # end if
                         if ((not is_comment_stmt) and
                             (sptr >= self.__max_comment_start)):
                             # suck in rest of line
@@ -193,9 +191,8 @@ end module {module}'''
                 #    comment line but before any significant characters
                 if outstr.lstrip().startswith('!'):
                     first_space = outstr.index('!') + 1
-                    while ((outstr[first_space] == '!' or
-                            outstr[first_space] == ' ') and
-                           (first_space < line_len)):
+                    while ((first_space < line_len) and
+                           (outstr[first_space] in '! ')):
                         first_space += 1
                     # end while
                     if min(spaces) < first_space:
@@ -206,26 +203,26 @@ end module {module}'''
                     best = min(best, self.find_best_break(commas))
                 # End if
                 line_continue = False
-                if best >= self.__line_max:
+                ugly_break = best >= self.__line_max
+                if ugly_break:
                     # This is probably a bad situation so we have to break
                     #   in an ugly spot
                     best = self.__line_max - 1
-                    if len(outstr) > best:
-                        line_continue = '&'
-                    # end if
                 # end if
-                if len(outstr) > best:
-                    if self._in_quote(outstr[0:best+1]):
+                in_comment = ""
+                if ((comment_start is not None) and
+                    (not outstr[best+1:comment_start].strip())):
+                    # Do not use continue if next line is just comment
+                    in_comment = "! "
+                    quote = ''
+                else:
+                    quote = self._in_quote(outstr[0:best+1], quote=in_quote)
+                    line_continue = len(outstr) > best + 1
+                    if line_continue and ugly_break:
+                        # Next line begins in the middle of a token
+                        #    or a quoted region
                         line_continue = '&'
-                    else:
-                        # If next line is just comment, do not use continue
-                        line_continue = outstr[best+1:].lstrip()[0] != '!'
                     # end if
-                elif not line_continue:
-                    line_continue = len(outstr) > best
-                # End if
-                if in_comment or is_comment_stmt:
-                    line_continue = False
                 # end if
                 if line_continue:
                     fill = "{}&".format((self.__line_fill - best)*' ')
@@ -242,7 +239,8 @@ end module {module}'''
                 if isinstance(line_continue, str) and statement:
                     statement = line_continue + statement
                 # end if
-                self.write(statement, indent_level, continue_line=line_continue)
+                self.write(statement, indent_level,
+                           continue_line=line_continue, in_quote=quote)
             else:
                 self.__file.write("{}\n".format(outstr))
             # End if
-- 
2.43.0


From 886d9cc1d5df037cbc5e5d1b8136c0f9dc2b23a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:56 +0000
Subject: [PATCH 56/81] fix: preprocessor conditions with != , ! or more than
 two operands, unset values and unbalanced directives were misread

(cherry picked from commit 8ea6a43802f9f328df5127a9c7e3583c632cbed1)
---
 scripts/fortran_tools/parse_fortran_file.py |   5 +
 scripts/parse_tools/preprocess.py           | 122 +++++++++++++++-----
 2 files changed, 99 insertions(+), 28 deletions(-)

diff --git a/scripts/fortran_tools/parse_fortran_file.py b/scripts/fortran_tools/parse_fortran_file.py
index 9bc39ef..648addf 100644
--- a/scripts/fortran_tools/parse_fortran_file.py
+++ b/scripts/fortran_tools/parse_fortran_file.py
@@ -347,6 +347,10 @@ def read_file(filename, preproc_defs=None, logger=None):
     Remvoved code results in blank lines, not removed lines
     """
     preproc_status = PreprocStack()
+    if preproc_defs is not None:
+        # Definitions made in <filename> are only valid in <filename>
+        preproc_defs = dict(preproc_defs)
+    # end if
     if not os.path.exists(filename):
         raise IOError("read_file: file, '{}', does not exist".format(filename))
     # end if
@@ -455,6 +459,7 @@ def read_file(filename, preproc_defs=None, logger=None):
         # End if
         curr_line, curr_line_num = pobj.next_line()
     # End while
+    preproc_status.check_closed(pobj)
     return pobj
 
 ########################################################################
diff --git a/scripts/parse_tools/preprocess.py b/scripts/parse_tools/preprocess.py
index 06b9414..f578f07 100755
--- a/scripts/parse_tools/preprocess.py
+++ b/scripts/parse_tools/preprocess.py
@@ -30,13 +30,45 @@ def preproc_bool(value):
             ival = int(value)
             line_val = ival != 0
         except ValueError:
-            line_val = value != "0"
+            # A name which is not defined
+            line_val = False
         # end try
     # end if
     return line_val
 
 ########################################################################
 
+def preproc_symbol_value(symbol, preproc_defs):
+    """Find the value of the defined preprocessor <symbol>.
+    A symbol which is defined without a value (e.g., -DFOO) has the value, 1.
+    >>> preproc_symbol_value('FOO', {'FOO':'3'})
+    3
+    >>> preproc_symbol_value('FOO', {'FOO':None})
+    1
+    >>> preproc_symbol_value('FOO', {'FOO':'BAR', 'BAR':2})
+    2
+    >>> preproc_symbol_value('FOO', {'FOO':'text'})
+    'text'
+    """
+    value = preproc_defs[symbol]
+    if value is None:
+        value = 1
+    elif isinstance(value, str):
+        # The value may be a number or another symbol
+        defs = {x : preproc_defs[x] for x in preproc_defs if x != symbol}
+        try:
+            ast_value = ast.parse(value.strip())
+            if len(ast_value.body) == 1:
+                value = preproc_item_value(ast_value.body[0], defs)
+            # end if
+        except (SyntaxError, PreprocError):
+            pass # Just use the text
+        # end try
+    # end if
+    return value
+
+########################################################################
+
 def preproc_item_value(item, preproc_defs):
     """Find the value of a preproc <item> (part of a parsed
     preprocessor line)"""
@@ -66,20 +98,21 @@ def preproc_item_value(item, preproc_defs):
             raise PreprocError("Cannot parse function {}".format(func))
         # end if
     elif isinstance(item, ast.BoolOp):
-        left_val = preproc_item_value(item.values[0], preproc_defs)
-        right_val = preproc_item_value(item.values[1], preproc_defs)
+        # Note that a BoolOp may have more than two values (e.g., a && b && c)
+        values = [preproc_bool(preproc_item_value(x, preproc_defs))
+                  for x in item.values]
         oper = item.op
         if isinstance(oper, ast.And):
-            value = preproc_bool(left_val) and preproc_bool(right_val)
+            value = all(values)
         elif isinstance(oper, ast.Or):
-            value = preproc_bool(left_val) or preproc_bool(right_val)
+            value = any(values)
         else:
             raise PreprocError("Unknown binary operator, {}".format(oper))
         # end if
     elif isinstance(item, ast.UnaryOp):
         val = preproc_item_value(item.operand, preproc_defs)
         oper = item.op
-        if isinstance(oper, ast.Not):
+        if isinstance(oper, (ast.Not, ast.Invert)):
             value = not preproc_bool(val)
         else:
             raise PreprocError("Unknown unary operator, {}".format(oper))
@@ -120,7 +153,7 @@ def preproc_item_value(item, preproc_defs):
     elif isinstance(item, ast.Name):
         id_key = item.id
         if id_key in preproc_defs:
-            value = preproc_defs[id_key]
+            value = preproc_symbol_value(id_key, preproc_defs)
         else:
             value = id_key
         # end if
@@ -153,13 +186,17 @@ def parse_preproc_line(line, preproc_defs):
             # In character context, just copy current character
             pline = pline + line[index]
         elif line[index:index+2] == '&&':
-            pline = pline + 'and'
+            pline = pline + ' and '
             index = index + 1
         elif line[index:index+2] == '||':
-            pline = pline + 'or'
+            pline = pline + ' or '
+            index = index + 1
+        elif line[index:index+2] == '!=':
+            pline = pline + '!='
             index = index + 1
         elif line[index] == '!':
-            pline = pline + "not"
+            # The python operator with the precedence of the C '!' is '~'
+            pline = pline + '~'
         else:
             match = __defined_re__.match(line[index:])
             if match is None:
@@ -184,7 +221,7 @@ def parse_preproc_line(line, preproc_defs):
             line_val = preproc_bool(value)
             success = True
         # end if
-    except SyntaxError:
+    except (SyntaxError, PreprocError):
         line_val = False
         success = False
     # end try
@@ -195,19 +232,21 @@ def parse_preproc_line(line, preproc_defs):
 class PreprocStack(object):
     """Class to handle preprocess regions"""
 
-    ifdef_re = re.compile(r"#\s*ifdef\s+(.*)")
-    ifndef_re = re.compile(r"#\s*ifndef\s+(.*)")
+    ifdef_re = re.compile(r"#\s*ifdef\s+([A-Za-z0-9_]+)")
+    ifndef_re = re.compile(r"#\s*ifndef\s+([A-Za-z0-9_]+)")
     if_re = re.compile(r"#\s*if([^dn].*)")
-    elif_re = re.compile(r"#\s*elif\s(.*)")
-    ifelif_re = re.compile(r"#\s*(?:el)?if\s(.*)")
+    elif_re = re.compile(r"#\s*elif\b(.*)")
+    ifelif_re = re.compile(r"#\s*(?:el)?if\b(.*)")
     else_re = re.compile(r"#\s*else")
     end_re = re.compile(r"#\s*endif")
-    define_re = re.compile(r"#\s*define\s+([A-Za-z0-9_]+)\s+([^\s]*)")
+    define_re = re.compile(r"#\s*define\s+([A-Za-z0-9_]+)(?:\s+([^\s]*)|$)")
     undef_re = re.compile(r"#\s*undef\s+([A-Za-z0-9_]+)")
 
     def __init__(self):
         """Initialize our region stack"""
         self._region_stack = list()
+        # For each region, True after its #else
+        self._else_seen = list()
 
     @staticmethod
     def process_if_line(line, preproc_defs):
@@ -318,8 +357,13 @@ class PreprocStack(object):
             if match is None:
                 match = PreprocStack.if_re.match(sline)
                 if match is not None:
-                    line_val, success = self.process_if_line(sline,
-                                                             preproc_defs)
+                    if self.in_true_region():
+                        line_val, success = self.process_if_line(sline,
+                                                                 preproc_defs)
+                    else:
+                        # This condition is not considered
+                        line_val, success = False, True
+                    # end if
                     self.enter_region(line_val)
                     if (not success) and (logger is not None):
                         lmsg = "WARNING: Preprocessor #if statement not handled, at {}"
@@ -330,9 +374,14 @@ class PreprocStack(object):
             if match is None:
                 match = PreprocStack.elif_re.match(sline)
                 if match is not None:
-                    line_val, success = self.process_if_line(sline,
-                                                             preproc_defs)
-                    self.modify_region(line_val)
+                    if self.considers_elif():
+                        line_val, success = self.process_if_line(sline,
+                                                                 preproc_defs)
+                    else:
+                        # This condition is not considered
+                        line_val, success = False, True
+                    # end if
+                    self.modify_region(line_val, "#elif", pobj)
                     if (not success) and (logger is not None):
                         lmsg = "WARNING: Preprocessor #elif statement not handled, at {}"
                         logger.warning(lmsg.format(pobj))
@@ -344,7 +393,7 @@ class PreprocStack(object):
                 if match is not None:
                     # Always try to use True for else, modify_region will set
                     # correct value
-                    self.modify_region(True)
+                    self.modify_region(True, "#else", pobj)
                 # end if
             # end if
             if match is None:
@@ -375,6 +424,7 @@ class PreprocStack(object):
         """Enter a new region (if, ifdef, ifndef) which may
         currently be valid"""
         self._region_stack.append([valid, valid])
+        self._else_seen.append(False)
 
     def exit_region(self, pobj):
         """Leave the current (innermost) region"""
@@ -383,19 +433,35 @@ class PreprocStack(object):
             raise ParseSyntaxError(emsg, context=pobj)
         # end if
         self._region_stack.pop()
+        self._else_seen.pop()
 
-    def modify_region(self, valid):
+    def check_closed(self, pobj):
+        """Raise an error if any region is still open"""
+        if self._region_stack:
+            emsg = "Missing #endif at the end of the file"
+            raise ParseSyntaxError(emsg, context=pobj)
+        # end if
+
+    def considers_elif(self):
+        """Return True iff the condition of an #elif has to be evaluated"""
+        return (bool(self._region_stack) and
+                (not self._region_stack[-1][0]) and
+                all(x[1] for x in self._region_stack[:-1]))
+
+    def modify_region(self, valid, directive, pobj):
         """Possibly modify the current (innermost) region.
         A region can be modified from False to True.
         Any attempt to modify a region which has been True results in False
         because after a region has been True, any #elif or #else must skipped.
         """
-        curr_region = self._region_stack.pop()
-        if curr_region[0]:
-            self._region_stack.append([curr_region[0], False])
-        else:
-            self._region_stack.append([curr_region[0], valid])
+        if (not self._region_stack) or self._else_seen[-1]:
+            emsg = "{} found with no matching #if, #ifdef, or #ifndef"
+            raise ParseSyntaxError(emsg.format(directive), context=pobj)
         # end if
+        self._else_seen[-1] = directive == "#else"
+        curr_region = self._region_stack[-1]
+        curr_region[1] = valid and (not curr_region[0])
+        curr_region[0] = curr_region[0] or curr_region[1]
 
     def in_true_region(self):
         """Return True iff the current line should be processed"""
-- 
2.43.0


From a4fd60d6005bd1b29fe5c1ac47662222da83a675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:17 +0000
Subject: [PATCH 57/81] fix: declarations with array or string initializers,
 contiguous, 'in out' or assumed-size dimensions were misread

(cherry picked from commit 4021a345d3613ec141a9de80f872e51f2848036b)
---
 scripts/fortran_tools/parse_fortran.py | 136 ++++++++++++++++++-------
 1 file changed, 102 insertions(+), 34 deletions(-)

diff --git a/scripts/fortran_tools/parse_fortran.py b/scripts/fortran_tools/parse_fortran.py
index e7d3c49..66a2e49 100644
--- a/scripts/fortran_tools/parse_fortran.py
+++ b/scripts/fortran_tools/parse_fortran.py
@@ -39,6 +39,69 @@ _VAR_ID_RE = re.compile(r"("+_FORTRAN_ID+r")\s*(\(\s*"+_dims_list_+r"\s*\))?$")
 
 ########################################################################
 
+def quoted_positions(line):
+    """Return the positions of the characters of <line> which belong to
+    character literals.
+    >>> quoted_positions("a = 'b''c', d")
+    [4, 5, 6, 7, 8, 9]
+    """
+    quote = None
+    positions = list()
+    for index, char in enumerate(line):
+        if quote is not None:
+            positions.append(index)
+            if char == quote:
+                quote = None
+            # end if
+        elif char in ("'", '"'):
+            positions.append(index)
+            quote = char
+        # end if
+    # end for
+    return positions
+
+########################################################################
+
+def top_level_positions(line, token):
+    """Return the positions of the instances of <token> in <line> which are
+    neither inside of character literals nor inside of brackets.
+    >>> top_level_positions("a(b, c), d = ',', e = [1, 2]", ',')
+    [7, 16]
+    """
+    quoted = set(quoted_positions(line))
+    depth = 0
+    positions = list()
+    for index, char in enumerate(line):
+        if index in quoted:
+            continue
+        # end if
+        if char in '([':
+            depth += 1
+        elif char in ')]':
+            depth -= 1
+        elif (depth == 0) and line.startswith(token, index):
+            positions.append(index)
+        # end if
+    # end for
+    return positions
+
+########################################################################
+
+def strip_comment(line):
+    """Return <line> without any trailing comment.
+    >>> strip_comment("a = 'Hi!' ! there")
+    "a = 'Hi!'"
+    """
+    quoted = set(quoted_positions(line))
+    for index, char in enumerate(line):
+        if (char == '!') and (index not in quoted):
+            return line[0:index].rstrip()
+        # end if
+    # end for
+    return line
+
+########################################################################
+
 class Ftype(object):
     """Ftype is the base class for all Fortran types
     It is also the final type for intrinsic types except for character
@@ -77,8 +140,8 @@ class Ftype(object):
     __kind_re = re.compile(r"(?i)kind\s*(\()?\s*([\'\"])?(.+?)([\'\"])?\s*(\))?")
 
     __attr_spec = ['allocatable', 'asynchronous', 'dimension', 'external',
-                   'intent', 'intrinsic', 'bind', 'optional', 'parameter',
-                   'pointer', 'private', 'protected', 'public', 'save',
+                   'intent', 'intrinsic', 'bind', 'contiguous', 'optional',
+                   'parameter', 'pointer', 'private', 'protected', 'public', 'save',
                    'target', 'value', 'volatile']
 
     def __init__(self, typestr_in=None, kind_in=None, match_len_in=None,
@@ -132,6 +195,10 @@ class Ftype(object):
             # end if
             if check_fortran_intrinsic(match.group(1)):
                 self.__typestr = match.group(1)
+                if self.__typestr[0:6].lower() == 'double':
+                    # Only use one of the possible spellings of this type
+                    self.__typestr = 'double precision'
+                # end if
                 if match.group(2) is not None:
                     # Parse kind section
                     kmatch = match.group(2).strip()
@@ -219,22 +286,28 @@ class Ftype(object):
         ['a(b, c)', 'd', 'e()']
         >>> Ftype.reassemble_parens("dimension(size(Grid%xlon,1),NSPC1),  intent(in)", 'spec', ParseContext())
         ['dimension(size(Grid%xlon,1),NSPC1)', 'intent(in)']
+        >>> Ftype.reassemble_parens("a(3) = [1, 2, 3], b = 'x,(y', c", 'spec', ParseContext())
+        ['a(3) = [1, 2, 3]', "b = 'x,(y'", 'c']
         """
         var_list = list()
-        proplist = propstr.split(splitstr)
-        while len(proplist) > 0:
-            var = proplist.pop(0)
-            while var.count('(') != var.count(')'):
-                if len(proplist) == 0:
-                    raise ParseSyntaxError(errstr, token=propstr, context=context)
+        positions = list(top_level_positions(propstr, splitstr))
+        starts = [0] + [x + len(splitstr) for x in positions]
+        for start, end in zip(starts, positions + [len(propstr)]):
+            var = propstr[start:end]
+            if var.count('(') != var.count(')'):
+                quoted = list(quoted_positions(var))
+                unquoted = ''.join([x for i, x in enumerate(var)
+                                    if i not in quoted])
+                if unquoted.count('(') != unquoted.count(')'):
+                    raise ParseSyntaxError(errstr, token=propstr,
+                                           context=context)
                 # end if
-                var = var + ',' + proplist.pop(0)
-            # end while
+            # end if
             var = var.strip()
             if len(var) > 0:
                 var_list.append(var)
             # end if
-        # end while
+        # end for
         return var_list
 
     @classmethod
@@ -536,19 +609,15 @@ class FtypeTypeDecl(Ftype):
            Otherwise, return None"""
         type_def = None
         if not cls.type_match(line):
-            if '!' in line:
-                sline = line[0:line.index('!')].strip()
-            else:
-                sline = line.strip()
-            # end if
-            if sline.lower()[0:4] == 'type':
+            sline = strip_comment(line).strip()
+            if re.match(r"(?i)type(?:\s*,|\s*::|\s+[a-z])", sline) is not None:
                 if '::' in sline:
                     elements = sline.split('::')
                     type_name = elements[1].strip()
                     type_props = [x.strip() for x in elements[0].split(',')[1:]]
                 else:
                     # Plain type decl
-                    type_name = sline.split(' ', 1)[1].strip()
+                    type_name = sline[4:].strip()
                     type_props = None
                 # end if
                 if '(' in type_name:
@@ -573,9 +642,7 @@ def ftype_factory(line, context):
     "Return an appropriate type object if there is a match, otherwise None"
     # We have to cut off the line at the end of any possible type info
     # Strip comments first (might have an = character)
-    if '!' in line:
-        line = line[0:line.index('!')].rstrip()
-    # end if
+    line = strip_comment(line)
     ppos = line.find('(')
     cpos = line.find(',')
     if ppos >= 0:
@@ -708,11 +775,8 @@ def parse_fortran_var_decl(line, source, run_env):
     #'(size(bar))'
     """
     context = source.context
-    sline = line.strip()
     # Strip comments first
-    if '!' in sline:
-        sline = sline[0:sline.index('!')].rstrip()
-    # end if
+    sline = strip_comment(line.strip())
     tobject = ftype_factory(sline, context)
     newvars = list()
     if tobject is not None:
@@ -720,8 +784,8 @@ def parse_fortran_var_decl(line, source, run_env):
         def_dims = None # Default dimensions
         intent = None
         dimensions = None
-        if '::' in varprops:
-            elements = varprops.split('::')
+        if top_level_positions(varprops, '::'):
+            elements = varprops.split('::', 1)
             varlist = elements[1].strip()
             varprops = Ftype.parse_attr_specs(elements[0].strip(), context)
             for prop in varprops:
@@ -740,7 +804,7 @@ def parse_fortran_var_decl(line, source, run_env):
                                                    context=context)
                         # end if
                     else:
-                        intent = prop[6:].strip()[1:-1].strip()
+                        intent = ''.join(prop[6:].strip()[1:-1].split())
                     # end if
                 elif prop[0:9:] == 'dimension':
                     dimensions = prop[9:].strip()
@@ -756,13 +820,12 @@ def parse_fortran_var_decl(line, source, run_env):
         var_list = Ftype.reassemble_parens(varlist, 'variable_list', context)
         for var in var_list:
             prop_dict = {}
-            if '=' in var:
+            init = top_level_positions(var, '=')
+            if init:
                 # We do not care about initializers
-                var = var[0:var.rindex('=')].rstrip()
+                var = var[0:init[0]].rstrip()
             # end if
             # Scan <var> and gather variable pieces
-            inchar = None # Character context
-            var_len = len(var)
             ploc = var.find('(')
             if ploc < 0:
                 varname = var.strip()
@@ -803,10 +866,15 @@ def parse_fortran_var_decl(line, source, run_env):
             if intent is not None:
                 prop_dict['intent'] = intent
             # end if
+            if dimspec is None:
+                dimspec = dimensions
+            # end if
             if dimspec is not None:
+                # The extent of the last dimension may be assumed
+                dimspec = re.sub(r"([,(:]\s*)[*]\s*[)]$",
+                                 lambda x: x.group(1).rstrip(' :') + ':)',
+                                 dimspec)
                 prop_dict['dimensions'] = dimspec
-            elif dimensions is not None:
-                prop_dict['dimensions'] = dimensions
             else:
                 prop_dict['dimensions'] = '()'
             # end if
-- 
2.43.0


From 02815314f77588e9a463b0eb94eccdf44b2f1e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:17 +0000
Subject: [PATCH 58/81] fix: comparing metadata with Fortran skipped some
 mismatches, crashed on named extents and depended on the case of names

(cherry picked from commit 4e5ddecf99c0b06cd4d379564792c2e397c34b4b)
---
 scripts/ccpp_capgen.py                | 7 ++++---
 scripts/metadata_table.py             | 2 +-
 scripts/parse_tools/parse_checkers.py | 2 +-
 scripts/parse_tools/parse_source.py   | 2 +-
 4 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/scripts/ccpp_capgen.py b/scripts/ccpp_capgen.py
index beb1e27..a0f3868 100755
--- a/scripts/ccpp_capgen.py
+++ b/scripts/ccpp_capgen.py
@@ -301,7 +301,7 @@ def compare_fheader_to_mheader(meta_header, fort_header, logger):
             # missing from fortran declaration.
             # first check: if metadata says the variable is optional, does the fortran match?
             mopt  = mvar.get_prop_value('optional')
-            if find and mopt:
+            if (fvar is not None) and mopt:
                 fopt = fvar.get_prop_value('optional')
                 if (not fopt):
                     errmsg = f'Missing "optional" attribute in fortran declaration for variable {mname}, ' \
@@ -318,7 +318,8 @@ def compare_fheader_to_mheader(meta_header, fort_header, logger):
                     errors_found = add_error(errors_found, errmsg)
                 # end if
             # end if
-            if mind >= flen:
+            if (mind >= flen) and ((fvar is None) or
+                                   (fht in _ORDERED_TABLE_TYPES)):
                 if arrayref:
                     # Array reference, variable not in Fortran table
                     pass
@@ -392,7 +393,7 @@ def check_fortran_against_metadata(meta_headers, fort_headers,
         fheader = None
         mtitle = mheader.title
         for findex in range(len(fort_headers)): #pylint: disable=consider-using-enumerate
-            if fort_headers[findex].title == mtitle:
+            if fort_headers[findex].title.lower() == mtitle.lower():
                 fheader = fort_headers.pop(findex)
                 break
             # end if
diff --git a/scripts/metadata_table.py b/scripts/metadata_table.py
index 942f8d8..47d99b6 100755
--- a/scripts/metadata_table.py
+++ b/scripts/metadata_table.py
@@ -1110,7 +1110,7 @@ class MetadataSection(ParseSource):
                         errmsg += context_string(context)
                         if logger is not None:
                             errmsg = "ERROR: " + errmsg
-                            logger.error(errmsg.format(item, std, ctx))
+                            logger.error(errmsg)
                             dname = unique_standard_name()
                         else:
                             raise CCPPError(errmsg) from verr
diff --git a/scripts/parse_tools/parse_checkers.py b/scripts/parse_tools/parse_checkers.py
index 469bf1d..f8c3646 100755
--- a/scripts/parse_tools/parse_checkers.py
+++ b/scripts/parse_tools/parse_checkers.py
@@ -1069,7 +1069,7 @@ def registered_fortran_ddt_names():
 ########################################################################
 
 def registered_fortran_ddt_name(name):
-    if name in _REGISTERED_FORTRAN_DDT_NAMES:
+    if name.lower() in [x.lower() for x in _REGISTERED_FORTRAN_DDT_NAMES]:
         return name
     else:
         return None
diff --git a/scripts/parse_tools/parse_source.py b/scripts/parse_tools/parse_source.py
index 2ed0e5b..50dc8cb 100644
--- a/scripts/parse_tools/parse_source.py
+++ b/scripts/parse_tools/parse_source.py
@@ -323,7 +323,7 @@ class ParseContext():
                                         self)
             # End if
             if (region_name is not None) and (curr_name is not None):
-                if region_name != curr_name:
+                if region_name.lower() != curr_name.lower():
                     emsg = "Trying to exit {} {} while currently in {} {}"
                     raise ParseContextError(emsg.format(region_type,
                                                         region_name,
-- 
2.43.0


From 853288ba9fbde3fb1aabc7724b4e9f71498a6744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:17 +0000
Subject: [PATCH 59/81] fix: the Fortran reader mistook bare end statements,
 interface blocks, prefixes, comments and fixed-form lines

(cherry picked from commit cbb8691e069a01bf2ab07c10f03fb9f53e9e4b66)
---
 scripts/fortran_tools/parse_fortran_file.py | 188 ++++++++++++++------
 1 file changed, 129 insertions(+), 59 deletions(-)

diff --git a/scripts/fortran_tools/parse_fortran_file.py b/scripts/fortran_tools/parse_fortran_file.py
index 648addf..b9c9e8b 100644
--- a/scripts/fortran_tools/parse_fortran_file.py
+++ b/scripts/fortran_tools/parse_fortran_file.py
@@ -23,8 +23,10 @@ from parse_tools import FORTRAN_ID, context_string
 from metadata_table import MetadataTable
 try:
     from parse_fortran import parse_fortran_var_decl, fortran_type_definition
+    from parse_fortran import strip_comment
 except ModuleNotFoundError:
     from .parse_fortran import parse_fortran_var_decl, fortran_type_definition
+    from .parse_fortran import strip_comment
 # end try
 from metavar import VarDictionary
 # pylint: enable=wrong-import-position
@@ -32,21 +34,23 @@ from metavar import VarDictionary
 _COMMENT_RE = re.compile(r"!.*$")
 _FIXED_COMMENT_RE = re.compile(r"(?i)([C*]|(?:[ ]{0,4}!))")
 _PROGRAM_RE = re.compile(r"(?i)\s*program\s+"+FORTRAN_ID)
-_ENDPROGRAM_RE = re.compile(r"(?i)\s*end\s*program\s+"+FORTRAN_ID+r"?")
+_ENDPROGRAM_RE = re.compile(r"(?i)\s*end\s*(?:program(?:\s+"+FORTRAN_ID+r")?\s*)?(?:!|$)")
 _MODULE_RE = re.compile(r"(?i)\s*module\s+"+FORTRAN_ID)
-_ENDMODULE_RE = re.compile(r"(?i)\s*end\s*module\s+"+FORTRAN_ID+r"?")
-_CONTAINS_RE = re.compile(r"(?i)\s*contains")
+_ENDMODULE_RE = re.compile(r"(?i)\s*end\s*(?:module(?:\s+"+FORTRAN_ID+r")?\s*)?(?:!|$)")
+_CONTAINS_RE = re.compile(r"(?i)\s*contains\s*(?:!|$)")
 _CONTINUE_RE = re.compile(r"(?i)&\s*(!.*)?$")
 _FIXED_CONTINUE_RE = re.compile(r"(?i)     [^0 ]")
 _BLANK_RE = re.compile(r"\s+")
 _ARG_TABLE_START_RE = re.compile(r"(?i)\s*![!>]\s*(?:\\section)?\s*arg_table_"+FORTRAN_ID)
-_PREFIX_SPECS = [r"(?:recursive)", r"(?:pure)", r"(?:elemental)"]
-_PREFIX_SPEC = r"(?:{})?\s*".format('|'.join(_PREFIX_SPECS))
+_PREFIX_SPECS = [r"recursive", r"non_recursive", r"pure", r"impure", r"elemental"]
+_PREFIX_SPEC = r"(?:(?:{})\s+)*".format('|'.join(_PREFIX_SPECS))
 _SUBNAME_SPEC = r"subroutine\s*"
 _ARGLIST_SPEC = r"\s*(?:[(]\s*([^)]*)[)])?"
 _SUBROUTINE_SPEC = r"(?i)\s*"+_PREFIX_SPEC+_SUBNAME_SPEC+FORTRAN_ID+_ARGLIST_SPEC
 _SUBROUTINE_RE = re.compile(_SUBROUTINE_SPEC)
-_END_SUBROUTINE_RE = re.compile(r"(?i)\s*end\s*"+_SUBNAME_SPEC+FORTRAN_ID+r"?")
+_FUNCTION_RE = re.compile(r"(?i)\s*(?:[A-Z](?:(?!::)[^'\"!])*[\s)])?function\s+"+FORTRAN_ID+r"\s*[(]")
+_INTERFACE_RE = re.compile(r"(?i)\s*(?:abstract\s+)?interface(?:\s+[A-Z].*|\s*(?:!.*)?)$")
+_END_UNIT_RE = re.compile(r"(?i)\s*end\s*(?:(?:subroutine|function|interface)\b.*|(?:!.*)?)$")
 _USE_RE = re.compile(r"(?i)\s*use\s(?:,\s*intrinsic\s*::)?\s*only\s*:([^!]+)")
 _END_TYPE_RE = re.compile(r"(?i)\s*end\s*type(?:\s+"+FORTRAN_ID+r")?")
 _INTENT_STMT_RE = re.compile(r"(?i),\s*intent\s*[(]")
@@ -379,7 +383,9 @@ def read_file(filename, preproc_defs=None, logger=None):
         elif (fixed_form and
               (_FIXED_COMMENT_RE.match(curr_line) is not None)):
             skip_line = True
-        elif curr_line.lstrip()[0] == '!':
+        elif ((curr_line.lstrip()[0] == '!') and
+              not (fixed_form and
+                   (_FIXED_CONTINUE_RE.match(curr_line) is not None))):
             skip_line = True
         # End if
         if skip_line:
@@ -403,15 +409,32 @@ def read_file(filename, preproc_defs=None, logger=None):
         # End if
         # scan the line for properties
         if fixed_form:
+            curr_line = curr_line[0:72]
             res = scan_fixed_line(curr_line, in_schar, in_dchar, pobj)
-            cont_in_col, in_schar, in_dchar, comment_col = res
-            continue_col = cont_in_col # No warning in fixed form
-            cont_out_col = -1
-            if (comment_col < 0) and (continue_col < 0):
-                # Real statement, grab the line # in case is continued
+            continue_col, in_schar, in_dchar, comment_col = res
+            if continue_col >= 0:
+                # Move this line to the statement it continues
+                if prev_line is None:
+                    raise ParseSyntaxError("No line to continue",
+                                           context=pobj)
+                # end if
+                if comment_col >= 0:
+                    curr_line = curr_line[0:comment_col]
+                # end if
+                prev_line = prev_line + curr_line[6:]
+                pobj.write_line(prev_line_num, prev_line)
+                pobj.write_line(curr_line_num, "")
+            else:
+                # Real statement, remember it in case it is continued
+                pobj.write_line(curr_line_num, curr_line)
                 prev_line_num = curr_line_num
-                prev_line = None
-            # End if
+                prev_line = curr_line
+                if comment_col >= 0:
+                    prev_line = prev_line[0:comment_col]
+                # end if
+            # end if
+            curr_line, curr_line_num = pobj.next_line()
+            continue
         else:
             res = scan_free_line(curr_line, (continue_col >= 0),
                                  in_schar, in_dchar, pobj)
@@ -419,30 +442,21 @@ def read_file(filename, preproc_defs=None, logger=None):
         # End if
         # If in a continuation context, move this line to previous
         if continue_col >= 0:
-            if fixed_form and (prev_line is None):
-                prev_line = pobj.peek_line(prev_line_num)[0:72]
-            # End if
             if prev_line is None:
                 raise ParseInternalError("No prev_line to continue",
                                          context=pobj)
             # End if
             sindex = max(cont_in_col+1, 0)
-            if fixed_form:
-                sindex = 6
-                eindex = 72
-            elif cont_out_col > 0:
+            if cont_out_col > 0:
                 eindex = cont_out_col
             else:
                 eindex = len(curr_line)
             # End if
             prev_line = prev_line + curr_line[sindex:eindex]
-            if fixed_form:
-                prev_line = prev_line.rstrip()
-            # End if
             # Rewrite the file's lines
             pobj.write_line(prev_line_num, prev_line)
             pobj.write_line(curr_line_num, "")
-            if (not fixed_form) and (cont_out_col < 0):
+            if cont_out_col < 0:
                 # We are done with this line, reset prev_line
                 prev_line = None
                 prev_line_num = -1
@@ -464,6 +478,40 @@ def read_file(filename, preproc_defs=None, logger=None):
 
 ########################################################################
 
+def unit_depth(statement, depth):
+    """Return the nesting depth of subprograms and interface blocks after
+    <statement>, given that the depth before it is <depth>.
+    >>> unit_depth('subroutine foo(a, b)', 0)
+    1
+    >>> unit_depth('impure elemental subroutine foo', 0)
+    1
+    >>> unit_depth('real(kind=kind_phys) function foo(a)', 1)
+    2
+    >>> unit_depth('interface', 1)
+    2
+    >>> unit_depth('real :: interface_height', 1)
+    1
+    >>> unit_depth('end function foo', 2)
+    1
+    >>> unit_depth('end ! of foo', 1)
+    0
+    >>> unit_depth('end if', 1)
+    1
+    >>> unit_depth('! a function foo(x)', 1)
+    1
+    """
+    if ((_SUBROUTINE_RE.match(statement) is not None) or
+        (_INTERFACE_RE.match(statement) is not None) or
+        ((_FUNCTION_RE.match(statement) is not None) and
+         (_END_UNIT_RE.match(statement) is None))):
+        depth += 1
+    elif _END_UNIT_RE.match(statement) is not None:
+        depth -= 1
+    # end if
+    return depth
+
+########################################################################
+
 def parse_use_statement(statement, logger):
     """Return True iff <statement> is a use statement"""
     umatch = _USE_RE.match(statement)
@@ -479,13 +527,13 @@ def parse_use_statement(statement, logger):
 
 def is_dummy_argument_statement(statement):
     """Return True iff <statement> is a dummy argument declaration"""
-    return _INTENT_STMT_RE.search(statement) is not None
+    return _INTENT_STMT_RE.search(strip_comment(statement)) is not None
 
 ########################################################################
 
 def is_comment_statement(statement):
     """Return True iff <statement> is a Fortran comment"""
-    return statement.lstrip()[0] == '!'
+    return statement.lstrip()[0:1] in ('', '!')
 
 ########################################################################
 
@@ -542,6 +590,7 @@ def parse_preamble_data(statements, pobj, spec_name, endmatch, run_env):
     var_dict = VarDictionary(spec_name, run_env)
     psrc = ParseSource(spec_name, 'MODULE', pobj)
     active_table = None
+    depth = 0 # Nesting depth of interface blocks
     if run_env.logger is not None:
         ctx = context_string(pobj, nodir=True)
         msg = "Parsing preamble variables of {}{}"
@@ -550,6 +599,12 @@ def parse_preamble_data(statements, pobj, spec_name, endmatch, run_env):
     while inspec and (statements is not None):
         while len(statements) > 0:
             statement = statements.pop(0)
+            # Skip over interface blocks
+            prev_depth = depth
+            depth = max(unit_depth(statement, depth), 0)
+            if (depth > 0) or (prev_depth > 0):
+                continue
+            # end if
             # End program or module
             pmatch = endmatch.match(statement)
             asmatch = _ARG_TABLE_START_RE.match(statement)
@@ -596,8 +651,8 @@ def parse_preamble_data(statements, pobj, spec_name, endmatch, run_env):
                 else:
                     # We found a type definition but it is not one with
                     #   metadata. Just parse it and throw away what is found.
-                    _ = parse_type_def(statements, type_def,
-                                       spec_name, pobj, run_env)
+                    statements, _ = parse_type_def(statements, type_def,
+                                                   spec_name, pobj, run_env)
                 # end if
             elif active_table is not None:
                 # We should have a variable definition to add
@@ -628,7 +683,7 @@ def parse_scheme_metadata(statements, pobj, spec_name, table_name, run_env):
     # Find the subroutine line, should be first executable statement
     inpreamble = False
     insub = True
-    seen_contains = False
+    depth = 0 # Nesting depth of subprograms and interface blocks
     if run_env.verbose:
         ctx = context_string(pobj, nodir=True)
         msg = "Parsing specification of {}{}"
@@ -640,11 +695,14 @@ def parse_scheme_metadata(statements, pobj, spec_name, table_name, run_env):
         while statements:
             statement = statements.pop(0)
             smatch = _SUBROUTINE_RE.match(statement)
-            esmatch = _END_SUBROUTINE_RE.match(statement)
-            pmatch = _ENDMODULE_RE.match(statement)
+            pmatch = None
+            if depth == 0:
+                pmatch = _ENDMODULE_RE.match(statement)
+            # end if
             asmatch = _ARG_TABLE_START_RE.match(statement)
-            seen_contains = seen_contains or is_contains_statement(statement, insub)
-            if seen_contains:
+            prev_depth = depth
+            depth = max(unit_depth(statement, depth), 0)
+            if is_contains_statement(statement, insub):
                 inpreamble = False
             # End if
             if asmatch is not None:
@@ -660,7 +718,7 @@ def parse_scheme_metadata(statements, pobj, spec_name, table_name, run_env):
                 insub = False
                 break
             # End if
-            if smatch is not None and not seen_contains:
+            if (smatch is not None) and (prev_depth == 0):
                 scheme_name = smatch.group(1)
                 inpreamble = scheme_name.lower() == table_name.lower()
                 if inpreamble:
@@ -692,16 +750,19 @@ def parse_scheme_metadata(statements, pobj, spec_name, table_name, run_env):
                     # End for
                     psrc = ParseSource(scheme_name, 'scheme', pobj)
                 # End if
-            elif inpreamble or seen_contains:
-                # Process a preamble statement (use or argument declaration)
-                if esmatch is not None:
-                    inpreamble = False
-                    seen_contains = False
+            elif (prev_depth == 1) and (depth == 0):
+                # We are done with this subprogram (which may precede the
+                #   one described by <table_name>)
+                inpreamble = False
+                if vdict is not None:
                     insub = False
-                elif (inpreamble and
-                      ((not is_comment_statement(statement)) and
-                       (not parse_use_statement(statement, run_env)) and
-                       is_dummy_argument_statement(statement))):
+                    break
+                # end if
+            elif inpreamble and (prev_depth == 1) and (depth == 1):
+                # Process a preamble statement (use or argument declaration)
+                if ((not is_comment_statement(statement)) and
+                    (not parse_use_statement(statement, run_env)) and
+                    is_dummy_argument_statement(statement)):
                     dvars = parse_fortran_var_decl(statement, psrc, run_env)
                     for var in dvars:
                         lname = var.get_prop_value('local_name').lower()
@@ -793,9 +854,16 @@ def parse_specification(pobj, statements, run_env, mod_name=None,
 
     inspec = True
     mtables = list()
+    depth = 0 # Nesting depth of interface blocks
     while inspec and (statements is not None):
         while len(statements) > 0:
             statement = statements.pop(0)
+            # Skip over interface blocks
+            prev_depth = depth
+            depth = max(unit_depth(statement, depth), 0)
+            if (depth > 0) or (prev_depth > 0):
+                continue
+            # end if
             # End program or module
             pmatch = endmatch.match(statement)
             asmatch = _ARG_TABLE_START_RE.match(statement)
@@ -803,6 +871,8 @@ def parse_specification(pobj, statements, run_env, mod_name=None,
             if pmatch is not None:
                 # We never found a contains statement
                 inspec = False
+                # Put statement back so caller knows where we are
+                statements.insert(0, statement)
                 break
             elif asmatch is not None:
                 # Put table statement back to re-read
@@ -831,8 +901,8 @@ def parse_specification(pobj, statements, run_env, mod_name=None,
                 # Just parse it and throw away what is found.
                 # Put statement back so caller knows where we are
                 statements.insert(0, statement)
-                _ = parse_type_def(statements, type_def,
-                                   spec_name, pobj, run_env)
+                statements, _ = parse_type_def(statements, type_def,
+                                               spec_name, pobj, run_env)
             elif is_contains_statement(statement, inmod):
                 inspec = False
                 break
@@ -910,17 +980,17 @@ def parse_module(pobj, statements, run_env):
     inmodule = pobj.in_region('MODULE', region_name=mod_name)
     active_table = None
     additional_subroutines = []
-    seen_contains = False
-    insub = False
+    depth = 0 # Nesting depth of subprograms and interface blocks
     while inmodule and (statements is not None):
         while statements:
             statement = statements.pop(0)
             # End module
-            pmatch = _ENDMODULE_RE.match(statement)
+            pmatch = None
+            if depth == 0:
+                pmatch = _ENDMODULE_RE.match(statement)
+            # end if
             asmatch = _ARG_TABLE_START_RE.match(statement)
             smatch = _SUBROUTINE_RE.match(statement)
-            esmatch = _END_SUBROUTINE_RE.match(statement)
-            seen_contains = seen_contains or is_contains_statement(statement, insub)
             if asmatch is not None:
                 active_table = asmatch.group(1)
             elif pmatch is not None:
@@ -929,6 +999,8 @@ def parse_module(pobj, statements, run_env):
                 inmodule = False
                 break
             elif active_table is not None:
+                # Put statement back as it may begin the subroutine
+                statements.insert(0, statement)
                 statements, mheader = parse_scheme_metadata(statements, pobj,
                                                             mod_name,
                                                             active_table,
@@ -950,14 +1022,12 @@ def parse_module(pobj, statements, run_env):
                 active_table = None
                 inmodule = pobj.in_region('MODULE', region_name=mod_name)
                 break
-            elif smatch is not None and not seen_contains:
-                routine_name = smatch.group(1).strip()
-                additional_subroutines.append(routine_name)
-                insub = True
-            elif esmatch is not None and not seen_contains:
-                insub = False
-            elif esmatch is not None:
-                seen_contains = False
+            else:
+                if (smatch is not None) and (depth == 0):
+                    routine_name = smatch.group(1).strip()
+                    additional_subroutines.append(routine_name)
+                # end if
+                depth = max(unit_depth(statement, depth), 0)
             # End if
         # End while
         if inmodule and (statements is not None) and (len(statements) == 0):
-- 
2.43.0


From 5dfb8f36907ad4d30da781a24092d1c62ecbb8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:27 +0000
Subject: [PATCH 60/81] fix: character default values with a length or an
 underscore were rejected, text around a dimension list ignored

(cherry picked from commit 8f798d02703378b8ea3d01930fe59330458c5d2b)
---
 scripts/parse_tools/parse_checkers.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/scripts/parse_tools/parse_checkers.py b/scripts/parse_tools/parse_checkers.py
index f8c3646..da1128b 100755
--- a/scripts/parse_tools/parse_checkers.py
+++ b/scripts/parse_tools/parse_checkers.py
@@ -229,6 +229,9 @@ FORTRAN_INTRINSIC_TYPES = ["integer", "real", "logical", "complex",
 FORTRAN_DP_RE = re.compile(r"(?i)double\s*precision")
 FORTRAN_TYPE_RE = re.compile(r"(?i)type\s*\(\s*("+FORTRAN_ID+r")\s*\)")
 
+_CHAR_LITERAL_RE = re.compile(r"(?:([A-Za-z0-9_]+)_)?(['\"].*)$")
+_CHAR_LEN_RE = re.compile(r"(?i)\s*len\s*=")
+
 _REGISTERED_FORTRAN_DDT_NAMES = []
 
 ########################################################################
@@ -293,8 +296,9 @@ def fortran_list_match(test_str):
     >>> fortran_list_match('(foo, bar')
 
     """
+    test_str = test_str.strip()
     parens, parene = check_balanced_paren(test_str)
-    if (parens >= 0) and (parene > parens):
+    if (parens == 0) and (parene == len(test_str) - 1):
         litems = [x.strip() for x in test_str[parens+1:parene].split(',')]
         if (len(litems) > 1) and (min([len(x) for x in litems]) == 0):
             litems = None
@@ -672,12 +676,15 @@ def check_fortran_literal(value, typestr, kind):
     elif valid:
         vparts = value.strip().split('_')
         if vtype == 'character':
-            if len(vparts) > 1:
-                val = vparts[-1]
-                vkind = '_'.join(vparts[0:-1])
-            else:
-                val = vparts[0]
-                vkind = ''
+            # Only what comes before the opening delimiter can be a kind
+            cmatch = _CHAR_LITERAL_RE.match(value.strip())
+            if cmatch is None:
+                return False
+            # end if
+            vkind = cmatch.group(1) or ''
+            val = cmatch.group(2)
+            if _CHAR_LEN_RE.match(kind) is not None:
+                kind = '' # A length is not part of a literal
             # end if
         else:
             val = vparts[0]
@@ -687,7 +694,7 @@ def check_fortran_literal(value, typestr, kind):
                 vkind = ''
             # end if
         # end if
-        if vkind != kind.lower():
+        if vkind.lower() != kind.lower():
             valid = False
         # end if, kind is okay, check value
         if valid and (vtype == 'integer'):
-- 
2.43.0


From b9201b02424ddcf332dd726f2b796d37ebe9e14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:27 +0000
Subject: [PATCH 61/81] fix: the metadata reader crashed on some malformed
 files and accepted missing table names and empty required properties

(cherry picked from commit b92314eff922e8c02a86fe5719c2d59af078bd6c)
---
 scripts/metadata_table.py | 69 +++++++++++++++++++++------------------
 scripts/var_props.py      |  4 +--
 2 files changed, 39 insertions(+), 34 deletions(-)

diff --git a/scripts/metadata_table.py b/scripts/metadata_table.py
index 47d99b6..e5af2fa 100755
--- a/scripts/metadata_table.py
+++ b/scripts/metadata_table.py
@@ -229,36 +229,27 @@ def find_scheme_names(filename):
     """
     scheme_names = []
     with open(filename, 'r') as infile:
-        fin_lines = infile.readlines()
+        fin_lines = [x.rstrip('\n') for x in infile.readlines()]
     # end with
-    num_lines = len(fin_lines)
-    context = ParseContext(linenum=1, filename=filename)
-    while context.line_num <= num_lines:
-        if MetadataTable.table_start(fin_lines[context.line_num - 1]):
-            found_start = False
-            while not found_start:
-                line = fin_lines[context.line_num].strip()
-                context.line_num += 1
-                if line and (line[0] == '['):
-                    found_start = True
-                elif line:
-                    props = _parse_config_line(line, context)
-                    for prop in props:
-                        # Look for name property
-                        key = prop[0].strip().lower()
-                        value = prop[1].strip()
-                        if key == 'name':
-                            scheme_names.append(value)
-                        # end if
-                    # end for
-                # end if
-                if context.line_num > num_lines:
-                    break
+    parse_obj = ParseObject(filename, fin_lines)
+    in_properties = False
+    line, _ = parse_obj.curr_line()
+    while line is not None:
+        if MetadataTable.table_start(line):
+            in_properties = True
+        elif line.lstrip().startswith('['):
+            in_properties = False
+        elif in_properties:
+            for prop in _parse_config_line(line, parse_obj):
+                # Look for name property
+                key = prop[0].strip().lower()
+                value = prop[1].strip()
+                if key == 'name':
+                    scheme_names.append(value)
                 # end if
-            # end while
-        else:
-            context.line_num += 1
+            # end for
         # end if
+        line, _ = parse_obj.next_line()
     # end while
     return scheme_names
 
@@ -445,6 +436,15 @@ class MetadataTable():
                 # end if
             # end if
         # end while
+        for pname, pval in (('name', self.table_name),
+                            ('type', self.table_type)):
+            if not pval:
+                emsg = "metadata table, no table {}{}"
+                self.__pobj.add_syntax_err(emsg.format(pname,
+                                                       self.start_context(nodir=False)),
+                                           skip_context=True)
+            # end if
+        # end for
         if self.__pobj.error_message:
             # Time to dump out error messages
             raise CCPPError(self.__pobj.error_message)
@@ -902,13 +902,17 @@ class MetadataSection(ParseSource):
                     else:
                         # Make sure this is a match
                         check_prop = Var.get_prop(pname)
-                        if check_prop is not None:
-                            pval = check_prop.valid_value(pval_str)
-                        else:
+                        if check_prop is None:
                             emsg = "variable property name"
                             self.__pobj.add_syntax_err(emsg, token=pname)
                             self.__section_valid = False
                             var_ok = False
+                            continue
+                        # end if
+                        if pval_str or check_prop.optional:
+                            pval = check_prop.valid_value(pval_str)
+                        else:
+                            pval = None # A required property needs a value
                         # end if
                         if pval is None:
                             errmsg = "'{}' property value"
@@ -926,7 +930,8 @@ class MetadataSection(ParseSource):
                             pval = []
                             for dim in porig:
                                 if ':' in dim:
-                                    pval.append(dim)
+                                    pval.append(':'.join([x.strip() for x in
+                                                          dim.split(':')]))
                                 else:
                                     cone_str = 'ccpp_constant_one:{}'
                                     pval.append(cone_str.format(dim))
@@ -1149,7 +1154,7 @@ class MetadataSection(ParseSource):
             mstr = "Section type, '{}', does not match table type, '{}'"
             mismatch += mstr.format(self.header_type, table_type)
         # end if
-        if self.header_type == SCHEME_HEADER_TYPE:
+        if (self.header_type == SCHEME_HEADER_TYPE) and self.title:
             # For schemes, strip off the scheme function phase (e.g., _init)
             sect_func, _, _ = CCPP_STATE_MACH.function_match(self.title)
         else:
diff --git a/scripts/var_props.py b/scripts/var_props.py
index c890a4c..419b5fb 100755
--- a/scripts/var_props.py
+++ b/scripts/var_props.py
@@ -694,7 +694,7 @@ class VariableProperty:
                         valid_val = None # i.e. pass
                 else:
                     valid_val = tval
-            except CCPPError:
+            except (TypeError, ValueError):
                 valid_val = None # Redundant but more expressive than pass
         elif self.ptype is float:
             try:
@@ -708,7 +708,7 @@ class VariableProperty:
                 else:
                     valid_val = tval
                 # end if
-            except CCPPError:
+            except (TypeError, ValueError):
                 valid_val = None
             # end try
         elif self.ptype is list:
-- 
2.43.0


From d9cd23bae11861636ff539661b503379f5d859ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:50 +0000
Subject: [PATCH 62/81] fix: the order of some generated lines depended on the
 hash seed or on the order of directory listings

(cherry picked from commit 26006270ef1fb84c223f04c12ba440f10f3967c2)
---
 scripts/ccpp_datafile.py        | 2 +-
 scripts/ccpp_prebuild.py        | 4 ++--
 scripts/ccpp_track_variables.py | 2 +-
 scripts/ddt_library.py          | 2 +-
 scripts/file_utils.py           | 4 ++--
 scripts/metavar.py              | 2 +-
 scripts/mkstatic.py             | 4 ++--
 scripts/suite_objects.py        | 2 +-
 8 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/scripts/ccpp_datafile.py b/scripts/ccpp_datafile.py
index 243557e..8d3943d 100755
--- a/scripts/ccpp_datafile.py
+++ b/scripts/ccpp_datafile.py
@@ -1214,7 +1214,7 @@ def generate_ccpp_datatable(run_env, host_model, api, scheme_headers,
             host_depends.add(dep_file)
         # end for
     # end for
-    _add_dependencies(datatable, scheme_depends, host_depends)
+    _add_dependencies(datatable, sorted(scheme_depends), sorted(host_depends))
     # Write tree
     datatable_tree = PrettyElementTree(datatable)
     datatable_tree.write(run_env.datatable_file)
diff --git a/scripts/ccpp_prebuild.py b/scripts/ccpp_prebuild.py
index 60f6e2a..9682c38 100755
--- a/scripts/ccpp_prebuild.py
+++ b/scripts/ccpp_prebuild.py
@@ -170,7 +170,7 @@ def get_all_suites(suites_dir):
     success = False
     logging.info("No suites were given, compiling a list of all suites")
     sdfs = []
-    for f in os.listdir(suites_dir):
+    for f in sorted(os.listdir(suites_dir)):
         match = SUITE_DEFINITION_FILENAME_PATTERN.match(f)
         if match:
             logging.info('Adding suite definition file {}'.format(f))
@@ -437,7 +437,7 @@ def generate_list_of_schemes_and_dependencies_to_compile(schemes_in_files, depen
             [dependency for dependency_list in list(dependencies1.values()) for dependency in dependency_list] + \
             [dependency for dependency_list in list(dependencies2.values()) for dependency in dependency_list]
     # Remove duplicates
-    return (success, list(set(schemes_and_dependencies_to_compile)))
+    return (success, sorted(set(schemes_and_dependencies_to_compile)))
 
 def compare_metadata(metadata_define, metadata_request):
     """Compare the requested metadata to the defined one. For each requested entry, a
diff --git a/scripts/ccpp_track_variables.py b/scripts/ccpp_track_variables.py
index 64dfc51..199cfb6 100755
--- a/scripts/ccpp_track_variables.py
+++ b/scripts/ccpp_track_variables.py
@@ -69,7 +69,7 @@ def create_metadata_filename_dict(metapath):
        with that scheme"""
 
     metadata_dict = {}
-    scheme_filenames = glob.glob(os.path.join(metapath, "*.meta"), recursive=True)
+    scheme_filenames = sorted(glob.glob(os.path.join(metapath, "*.meta"), recursive=True))
     if not scheme_filenames:
         raise Exception(f'No files found in {metapath} with ".meta" extension')
 
diff --git a/scripts/ddt_library.py b/scripts/ddt_library.py
index 3542559..975f865 100644
--- a/scripts/ddt_library.py
+++ b/scripts/ddt_library.py
@@ -319,7 +319,7 @@ class DDTLibrary(dict):
         <variable_list>"""
         pad = max(pad, self.__max_mod_name_len)
         ddt_mods = self.ddt_modules(variable_list)
-        for ddt_mod in ddt_mods:
+        for ddt_mod in sorted(ddt_mods):
             dmod = ddt_mod[0]
             dtype = ddt_mod[1]
             slen = ' '*(pad - len(dmod))
diff --git a/scripts/file_utils.py b/scripts/file_utils.py
index dd89168..4e081d1 100644
--- a/scripts/file_utils.py
+++ b/scripts/file_utils.py
@@ -59,7 +59,7 @@ def add_unique_files(filepath, pdesc, master_list, logger):
     Return a list of errors found
     Wildcards in <filepath> are expanded"""
     errors = list()
-    for file in glob.glob(filepath):
+    for file in sorted(glob.glob(filepath)):
         errs = check_for_existing_file(file, pdesc)
         if errs:
             errors.extend(errs)
@@ -149,7 +149,7 @@ def _create_file_list_int(files, suffices, file_type, logger,
             errs = add_unique_files(filename, pdesc, master_list, logger)
             errors.extend(errs)
         elif suff == 'txt':
-            tfiles = glob.glob(filename)
+            tfiles = sorted(glob.glob(filename))
             if tfiles:
                 for file in tfiles:
                     if file in txt_files:
diff --git a/scripts/metavar.py b/scripts/metavar.py
index eb675b4..e9d2402 100755
--- a/scripts/metavar.py
+++ b/scripts/metavar.py
@@ -1747,7 +1747,7 @@ class VarDictionary(OrderedDict):
 
         err_ret = ''
         ctx = ''
-        vdims = var.get_dim_stdnames(include_constants=False)
+        vdims = sorted(var.get_dim_stdnames(include_constants=False))
         for dimname in vdims:
             if to_dict:
                 present = to_dict.find_variable(standard_name=dimname,
diff --git a/scripts/mkstatic.py b/scripts/mkstatic.py
index b6db0c5..1cad74b 100755
--- a/scripts/mkstatic.py
+++ b/scripts/mkstatic.py
@@ -96,7 +96,7 @@ def extract_parents_and_indices_from_local_name(local_name):
         # Remove this innermost index group (...) from local_name
         local_name = local_name.replace(local_name[last_open:last_closed+1], '')
     # Remove duplicates from indices
-    indices = list(set(indices))
+    indices = sorted(set(indices))
     # Derive parent of actual variable (now that all subsets have been processed)
     if '%' in local_name:
         parent = local_name[:local_name.find('%')]
@@ -1918,7 +1918,7 @@ end module {module}
             sub_argument_list = create_argument_list_wrapped(self.arguments[ccpp_stage])
 
             # Remove duplicates from additional manual variable definitions
-            var_defs_manual = list(set(var_defs_manual))
+            var_defs_manual = sorted(set(var_defs_manual))
 
             # Write cap - shorten certain ccpp_stages to stay under the 63 character limit for Fortran function names
             subroutine = self._suite + '_' + self._name + '_' + CCPP_STAGES[ccpp_stage] + '_cap'
diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index 0f76a68..700ea95 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -470,7 +470,7 @@ class SuiteObject(VarDictionary):
                                         gen_unique=gen_unique,
                                         adjust_intent=True)
             # We need to make sure that this variable's dimensions are available
-            for vardim in newvar.get_dim_stdnames(include_constants=False):
+            for vardim in sorted(newvar.get_dim_stdnames(include_constants=False)):
                 # Unnamed dimensions are ok for allocatable variables
                 if vardim == '' and newvar.get_prop_value('allocatable'):
                     continue
-- 
2.43.0


From 2926cc4ca678c500ba04f14a92017893da8f82e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:05 +0000
Subject: [PATCH 63/81] fix: local names of constituents collided with each
 other and with host variables

(cherry picked from commit f13eef6fe385b1f64f07aeda6f0ba595bbc2b9ef)
---
 scripts/constituents.py  | 4 +++-
 scripts/suite_objects.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/scripts/constituents.py b/scripts/constituents.py
index a8c1114..f58079c 100644
--- a/scripts/constituents.py
+++ b/scripts/constituents.py
@@ -114,7 +114,9 @@ class ConstituentVarDict(VarDictionary):
             # end for
             var = source_var.clone({'dimensions' : newdims}, remove_intent=True,
                                    source_type=self.__constituent_type)
-            self.add_variable(var, self.__run_env)
+            # The local name may be in use by another constituent
+            self.add_variable(var, self.__run_env, gen_unique=True)
+            var = self[standard_name]
         return var
 
     @staticmethod
diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index 700ea95..5edcd90 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -2631,7 +2631,9 @@ class Group(SuiteObject):
             if fvar.source.ptype == ConstituentVarDict.constitutent_source_type():
                 # We found this variable in the constituent dictionary,
                 #   add it to our call list
-                self.add_call_list_variable(fvar, exists_ok=True)
+                #   (its local name may be in use by another variable)
+                self.add_call_list_variable(fvar, exists_ok=True,
+                                            gen_unique=True)
             # end if
         # end if
         return fvar
-- 
2.43.0


From d55e35cd8af1e5f25ebe28e3538e43ee5cf56d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:06 +0000
Subject: [PATCH 64/81] fix: suites sharing a scheme with run-time constituents
 were rejected

(cherry picked from commit 479ce4cd76a27284bc48d8969f10fe5132305167)
---
 scripts/host_cap.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/scripts/host_cap.py b/scripts/host_cap.py
index 0265d2c..b2e3df8 100644
--- a/scripts/host_cap.py
+++ b/scripts/host_cap.py
@@ -493,10 +493,12 @@ def add_constituent_vars(cap, host_model, suite_list, run_env):
 
 ###############################################################################
 def suite_part_call_list(host_model, const_dict, suite_part, subst_loop_vars,
-                         dyn_const=False):
+                         dyn_const_vars=None):
 ###############################################################################
     """Return the <host_model> controlled call list for <suite_part>.
-    <const_dict> is the constituent dictionary"""
+    <const_dict> is the constituent dictionary
+    <dyn_const_vars> is the dictionary of the local variables which receive
+       run-time constituents"""
     spart_args = suite_part.call_list.variable_list(loop_vars=subst_loop_vars)
     hmvars = list() # Host model to spart dummy args
     if subst_loop_vars:
@@ -508,8 +510,11 @@ def suite_part_call_list(host_model, const_dict, suite_part, subst_loop_vars,
         stdname = sp_var.get_prop_value('standard_name')
         sp_lname = sp_var.get_prop_value('local_name')
         if sp_var.get_prop_value('type') == 'ccpp_constituent_properties_t':
-            if dyn_const:
-                hmvars.append(f"{sp_lname}={sp_lname}")
+            if dyn_const_vars is not None:
+                hvar = dyn_const_vars.find_variable(standard_name=stdname,
+                                                    any_scope=False)
+                lname = hvar.get_prop_value('local_name')
+                hmvars.append(f"{sp_lname}={lname}")
             # end if
             continue
         # end if
@@ -621,8 +626,14 @@ def write_host_cap(host_model, api, module_name, output_dir, run_env):
                                              'local_name' : sp_var.get_prop_value('local_name'),
                                              'dimensions' : '(:)', 'units' : 'none',
                                              'allocatable' : True, 'ddt_type' : 'ccpp_constituent_properties_t'}
-                                newvar = Var(prop_dict, _API_SOURCE, run_env)
-                                host_local_vars.add_variable(newvar, run_env)
+                                # Suites may share a scheme, schemes may
+                                #   use the same local name
+                                if host_local_vars.find_variable(standard_name=stdname,
+                                                                 any_scope=False) is None:
+                                    newvar = Var(prop_dict, _API_SOURCE, run_env)
+                                    host_local_vars.add_variable(newvar, run_env,
+                                                                 gen_unique=True)
+                                # end if
                                 has_dyn_consts = True
                                 continue
                             else:
@@ -742,7 +753,7 @@ def write_host_cap(host_model, api, module_name, output_dir, run_env):
                     spart = suite.phase_group(stage)
                     dyn_const_array = suite_dynamic_constituent_array_name(host_model, suite.name)
                     call_str = suite_part_call_list(host_model, const_dict, spart, False,
-                                                                       dyn_const=True)
+                                                                       dyn_const_vars=host_local_vars)
                     # Find the dynamic constituents returned by this suite
                     dyn_consts = list()
                     for var in host_local_vars.variable_list():
-- 
2.43.0


From 04309c1a802c094c95dd2d0fc09656d4205895e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:06 +0000
Subject: [PATCH 65/81] fix: constituents could not be registered twice, nor
 without all suites, and were left dangling when deallocated

(cherry picked from commit d25826e0716b01315d26e4db478bee3c2ca1d4aa)
---
 scripts/constituents.py           | 26 +++++++++++++++-----------
 src/ccpp_constituent_prop_mod.F90 |  6 +++++-
 2 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/scripts/constituents.py b/scripts/constituents.py
index f58079c..0368f0e 100644
--- a/scripts/constituents.py
+++ b/scripts/constituents.py
@@ -539,15 +539,18 @@ class ConstituentVarDict(VarDictionary):
         # Register dynamic constituents
         cap.comment("Add dynamic constituent properties", 2)
         for dyn_const in dyn_const_names:
-           cap.write(f"do index = 1, size({dyn_const}, 1)", 2)
-           cap.write(f"const_prop => {dyn_const}(index)", 3)
-           stmt = f"call {const_obj_name}%new_field(const_prop, {obj_err_callstr})"
-           cap.write(stmt, 3)
-           cap.write("nullify(const_prop)", 3)
-           cap.write(f"if ({herrcode} /= 0) then", 3)
-           cap.write("return", 4)
-           cap.write("end if", 3)
-           cap.write("end do", 2)
+            # A suite which has not been registered has no array
+            cap.write(f"if (allocated({dyn_const})) then", 2)
+            cap.write(f"do index = 1, size({dyn_const}, 1)", 3)
+            cap.write(f"const_prop => {dyn_const}(index)", 4)
+            stmt = f"call {const_obj_name}%new_field(const_prop, {obj_err_callstr})"
+            cap.write(stmt, 4)
+            cap.write("nullify(const_prop)", 4)
+            cap.write(f"if ({herrcode} /= 0) then", 4)
+            cap.write("return", 5)
+            cap.write("end if", 4)
+            cap.write("end do", 3)
+            cap.write("end if", 2)
         # end for
 
         # Register suite constituents
@@ -691,12 +694,13 @@ class ConstituentVarDict(VarDictionary):
         cap.write(f"{substmt}()", 1)
         cap.comment("Deallocate dynamic constituent array", 2)
         cap.blank_line()
+        cap.comment("The constituents object has pointers into these arrays", 2)
+        cap.write(f"call {const_obj_name}%reset()", 2)
         for dyn_const in dyn_const_names:
             cap.write(f"if (allocated({dyn_const})) then", 2)
             cap.write(f"deallocate({dyn_const})", 3)
             cap.write("end if", 2)
-            cap.write(f"call {const_obj_name}%reset()", 2)
-        # end if
+        # end for
         cap.write(f"end {substmt}", 1)
         # Write constituents routine
         cap.blank_line()
diff --git a/src/ccpp_constituent_prop_mod.F90 b/src/ccpp_constituent_prop_mod.F90
index 58d950a..732752e 100644
--- a/src/ccpp_constituent_prop_mod.F90
+++ b/src/ccpp_constituent_prop_mod.F90
@@ -1583,7 +1583,11 @@ CONTAINS
       if (allocated(this%const_metadata)) then
          if (clear_table) then
             do index = 1, size(this%const_metadata, 1)
-               call this%const_metadata(index)%deallocate()
+               ! The constituents belong to whoever registered them
+               if (associated(this%const_metadata(index)%prop)) then
+                  this%const_metadata(index)%prop%const_ind = int_unassigned
+                  nullify(this%const_metadata(index)%prop)
+               end if
             end do
          end if
          deallocate(this%const_metadata)
-- 
2.43.0


From 244cd4eea5f1f42ed2bb5fb70beb9ab6e1b9161d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:03 +0000
Subject: [PATCH 66/81] fix: local names in group caps collided with names of
 host variables

(cherry picked from commit 35aa2f7ab015205f1cdbe47c97d6bad020991e7d)
---
 scripts/mkstatic.py | 50 ++++++++++++++++++++++-----------------------
 1 file changed, 25 insertions(+), 25 deletions(-)

diff --git a/scripts/mkstatic.py b/scripts/mkstatic.py
index 1cad74b..bc0e033 100755
--- a/scripts/mkstatic.py
+++ b/scripts/mkstatic.py
@@ -966,7 +966,7 @@ module {module}
    private
    public :: {subroutines}
 
-   logical, dimension({num_instances}), save :: initialized = .false.
+   logical, dimension({num_instances}), save :: ccpp_initialized = .false.
 
    contains
 '''
@@ -1000,10 +1000,10 @@ end module {module}
 
     initialized_test_blocks = {
         'init' : '''
-      if (initialized({ccpp_var_name}%ccpp_instance)) return
+      if (ccpp_initialized({ccpp_var_name}%ccpp_instance)) return
 ''',
         'timestep_init' : '''
-      if (.not.initialized({ccpp_var_name}%ccpp_instance)) then
+      if (.not.ccpp_initialized({ccpp_var_name}%ccpp_instance)) then
         write({target_name_msg},'(*(a))') '{name}_timestep_init called before {name}_init'
         {target_name_flag} = 1
         ierr = 1
@@ -1011,7 +1011,7 @@ end module {module}
       end if
 ''',
         'run' : '''
-      if (.not.initialized({ccpp_var_name}%ccpp_instance)) then
+      if (.not.ccpp_initialized({ccpp_var_name}%ccpp_instance)) then
         write({target_name_msg},'(*(a))') '{name}_run called before {name}_init'
         {target_name_flag} = 1
         ierr = 1
@@ -1019,7 +1019,7 @@ end module {module}
       end if
 ''',
         'timestep_finalize' : '''
-      if (.not.initialized({ccpp_var_name}%ccpp_instance)) then
+      if (.not.ccpp_initialized({ccpp_var_name}%ccpp_instance)) then
         write({target_name_msg},'(*(a))') '{name}_timestep_finalize called before {name}_init'
         {target_name_flag} = 1
         ierr = 1
@@ -1027,19 +1027,19 @@ end module {module}
       end if
 ''',
         'finalize' : '''
-      if (.not.initialized({ccpp_var_name}%ccpp_instance)) return
+      if (.not.ccpp_initialized({ccpp_var_name}%ccpp_instance)) return
 ''',
     }
 
     initialized_set_blocks = {
         'init' : '''
-      initialized({ccpp_var_name}%ccpp_instance) = .true.
+      ccpp_initialized({ccpp_var_name}%ccpp_instance) = .true.
 ''',
         'timestep_init' : '',
         'run' : '',
         'timestep_finalize' : '',
         'finalize' : '''
-      initialized({ccpp_var_name}%ccpp_instance) = .false.
+      ccpp_initialized({ccpp_var_name}%ccpp_instance) = .false.
 ''',
     }
 
@@ -1626,7 +1626,7 @@ end module {module}
                                 dimpad_after  = '' + ',:'*(len(tmpvar.dimensions[hdim_index+1:]))
 
                                 # Add necessary local variables for looping over blocks
-                                var_defs_manual.append('integer :: ib, nb')
+                                var_defs_manual.append('integer :: ccpp_ib, ccpp_nb')
 
                                 # Define actions before. Always copy data in, independent of intent.
                                 # We intentionally omit the dim string for the assignment on the right hand side,
@@ -1635,31 +1635,31 @@ end module {module}
                                 # to chunked arrays.
                                 actions_in = '''        ! Allocate local variable to copy blocked data {var} into a contiguous array
         allocate({tmpvar}({dims}))
-        ib = 1
-        do nb=1,{block_count}
-          {tmpvar}({dimpad_before}ib:ib+{block_size}-1{dimpad_after}) = {var}
-          ib = ib+{block_size}
+        ccpp_ib = 1
+        do ccpp_nb=1,{block_count}
+          {tmpvar}({dimpad_before}ccpp_ib:ccpp_ib+{block_size}-1{dimpad_after}) = {var}
+          ccpp_ib = ccpp_ib+{block_size}
         end do
 '''.format(tmpvar=tmpvar.local_name,
-           block_count=metadata_define[CCPP_BLOCK_COUNT][0].local_name.replace(CCPP_INTERNAL_VARIABLES[CCPP_BLOCK_NUMBER],'nb'),
-           block_size=metadata_define[CCPP_HORIZONTAL_LOOP_EXTENT][0].local_name.replace(CCPP_INTERNAL_VARIABLES[CCPP_BLOCK_NUMBER],'nb'),
-           var=tmpvar.target.replace(CCPP_INTERNAL_VARIABLES[CCPP_BLOCK_NUMBER],'nb'),
+           block_count=metadata_define[CCPP_BLOCK_COUNT][0].local_name.replace(CCPP_INTERNAL_VARIABLES[CCPP_BLOCK_NUMBER],'ccpp_nb'),
+           block_size=metadata_define[CCPP_HORIZONTAL_LOOP_EXTENT][0].local_name.replace(CCPP_INTERNAL_VARIABLES[CCPP_BLOCK_NUMBER],'ccpp_nb'),
+           var=tmpvar.target.replace(CCPP_INTERNAL_VARIABLES[CCPP_BLOCK_NUMBER],'ccpp_nb'),
            dims=','.join(alloc_dimensions),
            dimpad_before=dimpad_before,
            dimpad_after=dimpad_after,
            )
                                 # Define actions after, depending on intent.
                                 if var.intent in [ 'inout', 'out' ]:
-                                    actions_out = '''        ib = 1
-        do nb=1,{block_count}
-          {var} = {tmpvar}({dimpad_before}ib:ib+{block_size}-1{dimpad_after})
-          ib = ib+{block_size}
+                                    actions_out = '''        ccpp_ib = 1
+        do ccpp_nb=1,{block_count}
+          {var} = {tmpvar}({dimpad_before}ccpp_ib:ccpp_ib+{block_size}-1{dimpad_after})
+          ccpp_ib = ccpp_ib+{block_size}
         end do
         deallocate({tmpvar})
 '''.format(tmpvar=tmpvar.local_name,
-           block_count=metadata_define[CCPP_BLOCK_COUNT][0].local_name.replace(CCPP_INTERNAL_VARIABLES[CCPP_BLOCK_NUMBER],'nb'),
-           block_size=metadata_define[CCPP_HORIZONTAL_LOOP_EXTENT][0].local_name.replace(CCPP_INTERNAL_VARIABLES[CCPP_BLOCK_NUMBER],'nb'),
-           var=tmpvar.target.replace(CCPP_INTERNAL_VARIABLES[CCPP_BLOCK_NUMBER],'nb'),
+           block_count=metadata_define[CCPP_BLOCK_COUNT][0].local_name.replace(CCPP_INTERNAL_VARIABLES[CCPP_BLOCK_NUMBER],'ccpp_nb'),
+           block_size=metadata_define[CCPP_HORIZONTAL_LOOP_EXTENT][0].local_name.replace(CCPP_INTERNAL_VARIABLES[CCPP_BLOCK_NUMBER],'ccpp_nb'),
+           var=tmpvar.target.replace(CCPP_INTERNAL_VARIABLES[CCPP_BLOCK_NUMBER],'ccpp_nb'),
            dimpad_before=dimpad_before,
            dimpad_after=dimpad_after,
            )
@@ -1888,8 +1888,8 @@ end module {module}
                     # Create subcycle (Fortran do loop) if needed
                     if subcycle.loop > 1 and ccpp_stage == 'run':
                         subcycle_body_prefix += '''
-      associate(cnt => {loop_var_name})
-      do cnt=1,{loop_cnt_max}\n\n'''.format(loop_var_name=ccpp_loop_counter_target_name,
+      associate(ccpp_cnt => {loop_var_name})
+      do ccpp_cnt=1,{loop_cnt_max}\n\n'''.format(loop_var_name=ccpp_loop_counter_target_name,
                                                         loop_cnt_max=subcycle.loop)
                         subcycle_body_suffix += '''
       end do
-- 
2.43.0


From ecff755f606dd2681244011ee6929266d6810d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:16 +0000
Subject: [PATCH 67/81] fix: missing files were ignored and files spelled
 differently were read twice

(cherry picked from commit 1d14db67c988cb9dd7742c6f6309a3c6739e13c4)
---
 scripts/file_utils.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/scripts/file_utils.py b/scripts/file_utils.py
index 4e081d1..fd43dd0 100644
--- a/scripts/file_utils.py
+++ b/scripts/file_utils.py
@@ -59,7 +59,12 @@ def add_unique_files(filepath, pdesc, master_list, logger):
     Return a list of errors found
     Wildcards in <filepath> are expanded"""
     errors = list()
-    for file in sorted(glob.glob(filepath)):
+    files = sorted(glob.glob(filepath))
+    if (not files) and (not glob.has_magic(filepath)):
+        # A file which is explicitly named has to exist
+        files = [filepath]
+    # end if
+    for file in files:
         errs = check_for_existing_file(file, pdesc)
         if errs:
             errors.extend(errs)
@@ -136,9 +141,8 @@ def _create_file_list_int(files, suffices, file_type, logger,
         if suff:
             suff = suff[1:]
         # end if
-        if not os.path.isabs(filename):
-            filename = os.path.normpath(os.path.join(root_path, filename))
-        # end if
+        # Use the same spelling for every mention of a file to find duplicates
+        filename = os.path.normpath(os.path.join(root_path, filename))
         if os.path.isdir(filename):
             for suff_type in suffices:
                 file_type = os.path.join(filename, '*.{}'.format(suff_type))
-- 
2.43.0


From 01443fd66568c0b56080307341cb73d77a8d44a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:16 +0000
Subject: [PATCH 68/81] fix: Fortran files without a module were not readable,
 and routines of all but the last module of a file were ignored

(cherry picked from commit 9b01c09242d94477245f75f1595c98e28c8d2e0f)
---
 scripts/fortran_tools/parse_fortran_file.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scripts/fortran_tools/parse_fortran_file.py b/scripts/fortran_tools/parse_fortran_file.py
index b9c9e8b..4cc2e24 100644
--- a/scripts/fortran_tools/parse_fortran_file.py
+++ b/scripts/fortran_tools/parse_fortran_file.py
@@ -1041,6 +1041,7 @@ def parse_module(pobj, statements, run_env):
 def parse_fortran_file(filename, run_env):
     """Parse a Fortran file and return all metadata tables found."""
     mtables = list()
+    additional_routines = list()
     pobj = read_file(filename, preproc_defs=run_env.preproc_defs,
                      logger=run_env.logger)
     pobj.reset_pos()
@@ -1059,8 +1060,9 @@ def parse_fortran_file(filename, run_env):
         elif _MODULE_RE.match(statement) is not None:
             # push statement back so parse_module can use it
             statements.insert(0, statement)
-            statements, ptables, additional_routines = parse_module(pobj, statements, run_env)
+            statements, ptables, routines = parse_module(pobj, statements, run_env)
             mtables.extend(ptables)
+            additional_routines.extend(routines)
         # End if
         if (statements is not None) and (len(statements) == 0):
             statements = read_statements(pobj)
-- 
2.43.0


From a69e06e2dda9730ae3528460d41d63b868a6be64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:25 +0000
Subject: [PATCH 69/81] fix: prototype metadata lost the optional attribute of
 dummy arguments

(cherry picked from commit 9cda52f50c8005e0c5eac4714e7c9d55b0247b2d)
---
 scripts/ccpp_fortran_to_metadata.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scripts/ccpp_fortran_to_metadata.py b/scripts/ccpp_fortran_to_metadata.py
index 4c301d1..05cb6fe 100755
--- a/scripts/ccpp_fortran_to_metadata.py
+++ b/scripts/ccpp_fortran_to_metadata.py
@@ -160,6 +160,9 @@ def write_metadata_file(mfilename, ftables, sep):
                         prop = var.get_prop_value('intent')
                         outfile.write('  intent = {}{}'.format(prop,
                                                                os.linesep))
+                        if var.get_prop_value('optional'):
+                            outfile.write('  optional = True{}'.format(os.linesep))
+                        # end if
                     # end if
                 # end for
             # end for
-- 
2.43.0


From a5bfdbb533d66ecd6207840600dc788173932de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:50 +0000
Subject: [PATCH 70/81] fix: extents of prototype metadata did not refer to
 variables spelled in another case or after a blank

(cherry picked from commit 06664d7f3c6b019ea1fbd38ea1751abfb307aa50)
---
 scripts/ccpp_fortran_to_metadata.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scripts/ccpp_fortran_to_metadata.py b/scripts/ccpp_fortran_to_metadata.py
index 05cb6fe..a1f3765 100755
--- a/scripts/ccpp_fortran_to_metadata.py
+++ b/scripts/ccpp_fortran_to_metadata.py
@@ -119,7 +119,7 @@ def write_metadata_file(mfilename, ftables, sep):
                     prop = var.get_prop_value('standard_name')
                     outfile.write('  standard_name = {}{}'.format(prop,
                                                                   os.linesep))
-                    lname_dict[lname] = prop
+                    lname_dict[lname.lower()] = prop
                     prop = var.get_prop_value('units')
                     if not prop:
                         prop = 'enter_units'
@@ -142,7 +142,8 @@ def write_metadata_file(mfilename, ftables, sep):
                     if dims:
                         for dim in dims:
                             dslist = list()
-                            for dimspec in dim.split(':'):
+                            for dimspec in dim.lower().split(':'):
+                                dimspec = dimspec.strip()
                                 if dimspec and (dimspec in lname_dict):
                                     dstr = lname_dict[dimspec]
                                 else:
-- 
2.43.0


From 10950b00b7280b4f87bb301d8e4f7c6675c4eead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:12 +0000
Subject: [PATCH 71/81] fix: debug checks read elements of empty arrays

(cherry picked from commit 99a55a8e7da10c59cec1616c156118f16adb22e0)
---
 scripts/suite_objects.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index 5edcd90..3353ae6 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -1682,8 +1682,11 @@ class Scheme(SuiteObject):
                     outfile.write(f"if {conditional} then", indent)
                 # end if
                 outfile.write(f"! Assign lower/upper bounds of {local_name} to {internal_var_lname}", tmp_indent)
-                outfile.write(f"{internal_var_lname} = {local_name}{lbound_string}", tmp_indent)
-                outfile.write(f"{internal_var_lname} = {local_name}{ubound_string}", tmp_indent)
+                # An empty array has no elements at its bounds
+                outfile.write(f"if (size({local_name}{dim_string}) > 0) then", tmp_indent)
+                outfile.write(f"{internal_var_lname} = {local_name}{lbound_string}", tmp_indent+1)
+                outfile.write(f"{internal_var_lname} = {local_name}{ubound_string}", tmp_indent+1)
+                outfile.write(f"end if", tmp_indent)
                 if conditional != '.true.':
                     outfile.write(f"end if", indent)
                 # end if
-- 
2.43.0


From 114634d57dc18ca6b44fcf9ec445c26383e1f982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:26 +0000
Subject: [PATCH 72/81] fix: a variable passed to allocatable and other
 arguments was not declared allocatable in the suite cap

(cherry picked from commit 8db24d9fe47e0055098ed4051d97b764fa5859b7)
---
 scripts/metavar.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scripts/metavar.py b/scripts/metavar.py
index e9d2402..7265309 100755
--- a/scripts/metavar.py
+++ b/scripts/metavar.py
@@ -439,6 +439,10 @@ class Var:
         else:
             self._prop_dict['intent'] = sv_intent
         # end if
+        # A variable passed to an allocatable argument has to be allocatable
+        if src_var.get_prop_value('allocatable'):
+            self._prop_dict['allocatable'] = True
+        # end if
 
     @staticmethod
     def get_prop(name, spec_type=None):
-- 
2.43.0


From 0fec9265f9ec940771a207c3f1a55943a0fd3bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:39 +0000
Subject: [PATCH 73/81] fix: files were listed repeatedly in the lists of files
 to compile

(cherry picked from commit 9efca0b7f86109d6e246a8d2de4a719235c015fb)
---
 scripts/ccpp_prebuild.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/scripts/ccpp_prebuild.py b/scripts/ccpp_prebuild.py
index 9682c38..46741ae 100755
--- a/scripts/ccpp_prebuild.py
+++ b/scripts/ccpp_prebuild.py
@@ -662,10 +662,10 @@ def generate_schemes_makefile(schemes, schemes_makefile, schemes_cmakefile, sche
     cmakefile.filename = schemes_cmakefile + '.tmp'
     sourcefile = SchemesSourcefile()
     sourcefile.filename = schemes_sourcefile + '.tmp'
-    # Sort schemes so that the order remains the same (for cmake to avoid) recompiling
-    schemes.sort()
-    # Generate list of schemes with absolute path
-    schemes_with_abspath = [ os.path.abspath(scheme) for scheme in schemes ]
+    # Generate list of schemes with absolute path; sort schemes so that the order remains the
+    # same (for cmake to avoid) recompiling, list files only once (e.g. a variable definition
+    # file that is also a dependency of a scheme)
+    schemes_with_abspath = sorted(set(os.path.abspath(scheme) for scheme in schemes))
     makefile.write(schemes_with_abspath)
     cmakefile.write(schemes_with_abspath)
     sourcefile.write(schemes_with_abspath)
-- 
2.43.0


From 04929afd10f35ddab3cbf95ebfdd97202cc5cc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:54 +0000
Subject: [PATCH 74/81] fix: special characters broke the HTML and LaTeX
 variable tables

(cherry picked from commit a16c6ed50d4ec89f08fef310a5b4e78fdc2324ae)
---
 scripts/common.py |  4 +++-
 scripts/mkdoc.py  | 19 ++++++++++++-------
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/scripts/common.py b/scripts/common.py
index 01fdcc0..2322625 100755
--- a/scripts/common.py
+++ b/scripts/common.py
@@ -171,7 +171,9 @@ def escape_tex(text):
     return text.replace(
                 '%', '\%').replace(
                 '_', '\_').replace(
-                '&', '\&')
+                '&', '\&').replace(
+                '#', '\#').replace(
+                '$', '\$')
 
 def isstring(s):
     """Return true if a variable is a string"""
diff --git a/scripts/mkdoc.py b/scripts/mkdoc.py
index 018f88f..c459144 100755
--- a/scripts/mkdoc.py
+++ b/scripts/mkdoc.py
@@ -10,6 +10,8 @@
 import logging
 import os
 
+from html import escape
+
 from common import decode_container, escape_tex
 
 ###############################################################################
@@ -49,15 +51,18 @@ def metadata_to_html(metadata, model, filename):
             count = (count+1) % 2
             # ... create html row ...
             line = '''<tr>
-  <td bgcolor="{bgcolor}" align="left" >{v.standard_name}</td>
-  <td bgcolor="{bgcolor}" align="left" >{v.long_name}    </td>
-  <td bgcolor="{bgcolor}" align="left" >{v.units}        </td>
+  <td bgcolor="{bgcolor}" align="left" >{standard_name}</td>
+  <td bgcolor="{bgcolor}" align="left" >{long_name}    </td>
+  <td bgcolor="{bgcolor}" align="left" >{units}        </td>
   <td bgcolor="{bgcolor}" align="right">{rank}           </td>
-  <td bgcolor="{bgcolor}" align="left" >{v.type}         </td>
-  <td bgcolor="{bgcolor}" align="left" >{v.kind}         </td>
+  <td bgcolor="{bgcolor}" align="left" >{type}         </td>
+  <td bgcolor="{bgcolor}" align="left" >{kind}         </td>
   <td bgcolor="{bgcolor}" align="left" >{container}      </td>
-  <td bgcolor="{bgcolor}" align="left" >{v.local_name}   </td>
-</tr>'''.format(v=var, rank=var.rank.count(':'), container = decode_container(var.container), bgcolor=shading[count])
+  <td bgcolor="{bgcolor}" align="left" >{local_name}   </td>
+</tr>'''.format(standard_name=escape(var.standard_name), long_name=escape(var.long_name),
+                  units=escape(var.units), rank=var.rank.count(':'), type=escape(var.type),
+                  kind=escape(var.kind), container=escape(decode_container(var.container)),
+                  local_name=escape(var.local_name), bgcolor=shading[count])
             html += line
 
     # Footer
-- 
2.43.0


From 71170ee2b28b04407a6f378c05a45ae8cde78cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:09 +0000
Subject: [PATCH 75/81] fix: correct units of tendencies were rejected and
 wrong ones accepted

(cherry picked from commit 175f3fe3b1ed83f94363c752e3f9b438a417dff3)
---
 scripts/var_props.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/scripts/var_props.py b/scripts/var_props.py
index 419b5fb..bee3988 100755
--- a/scripts/var_props.py
+++ b/scripts/var_props.py
@@ -968,8 +968,7 @@ class VarCompatObj:
             # Check units argument
             if is_tend:
                 # A tendency variable's units should be "<var2_units> s-1"
-                tendency_split_units = var1_units.split('s-1')[0].strip()
-                if tendency_split_units != var2_units:
+                if var1_units.split() != var2_units.split() + ['s-1']:
                     # We don't currently support unit conversions for tendency variables
                     emsg = f"\nMismatch tendency variable units '{var1_units}'"
                     emsg += f" for variable '{var1_stdname}'."
-- 
2.43.0


From f114ec49793edb8818c6a313a450a4e7358d393f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:22 +0000
Subject: [PATCH 76/81] fix: constituents of other types and kinds were
 accepted but did not compile, default values of another kind rejected

(cherry picked from commit 0d87d878859692bc830d6792aa157dc3e3e96283)
---
 scripts/constituents.py |  7 ++++++-
 scripts/host_cap.py     | 20 +++++++++++++-------
 scripts/metavar.py      | 11 +++++++++++
 3 files changed, 30 insertions(+), 8 deletions(-)

diff --git a/scripts/constituents.py b/scripts/constituents.py
index 0368f0e..cc6bf28 100644
--- a/scripts/constituents.py
+++ b/scripts/constituents.py
@@ -112,7 +112,12 @@ class ConstituentVarDict(VarDictionary):
                 # end for
                 newdims.append(':'.join(new_dnames))
             # end for
-            var = source_var.clone({'dimensions' : newdims}, remove_intent=True,
+            # Constituents are stored with kind, kind_phys
+            new_props = {'dimensions' : newdims}
+            if source_var.get_prop_value('type').lower() == 'real':
+                new_props['kind'] = 'kind_phys'
+            # end if
+            var = source_var.clone(new_props, remove_intent=True,
                                    source_type=self.__constituent_type)
             # The local name may be in use by another constituent
             self.add_variable(var, self.__run_env, gen_unique=True)
diff --git a/scripts/host_cap.py b/scripts/host_cap.py
index b2e3df8..697556d 100644
--- a/scripts/host_cap.py
+++ b/scripts/host_cap.py
@@ -319,17 +319,23 @@ def add_constituent_vars(cap, host_model, suite_list, run_env):
                 #   horizontal_dimension, and second (optional) dimension,
                 #   vertical_layer_dimension or vertical_interface_dimension
                 is_tend_var = 'tendency_of' in std_name
+                vtype = cvar.get_prop_value('type')
+                if vtype.lower() != 'real':
+                    emsg = "Unsupported constituent type, '{}', for '{}', "
+                    emsg += "must be 'real'"
+                    raise CCPPError(emsg.format(vtype, std_name))
+                # end if
                 dims = cvar.get_dimensions()
                 if (len(dims) < 1) or (len(dims) > 2):
-                    emsg = "Unsupported constituent dimensions, '{}'"
+                    emsg = "Unsupported constituent dimensions, '{}', for '{}'"
                     dimstr = "({})".format(", ".join(dims))
-                    raise CCPPError(emsg.format(dimstr))
+                    raise CCPPError(emsg.format(dimstr, std_name))
                 # end if
                 hdim = dims[0].split(':')[-1]
                 if hdim != 'horizontal_dimension':
                     emsg = "Unsupported first constituent dimension, '{}', "
-                    emsg += "must be 'horizontal_dimension'"
-                    raise CCPPError(emsg.format(hdim))
+                    emsg += "for '{}', must be 'horizontal_dimension'"
+                    raise CCPPError(emsg.format(hdim, std_name))
                 # end if
                 if len(dims) > 1:
                     vdim = dims[1].split(':')[-1]
@@ -341,9 +347,9 @@ def add_constituent_vars(cap, host_model, suite_list, run_env):
                         # end if
                     else:
                         emsg = "Unsupported vertical constituent dimension, "
-                        emsg += "'{}', must be '{}' or '{}'"
-                        raise CCPPError(emsg.format(vdim, vert_layer_dim,
-                                                    vert_interface_dim))
+                        emsg += "'{}', for '{}', must be '{}'"
+                        raise CCPPError(emsg.format(vdim, std_name,
+                                                    vert_layer_dim))
                     # end if
                 else:
                     emsg = f"Unsupported 2-D variable, '{std_name}'"
diff --git a/scripts/metavar.py b/scripts/metavar.py
index 7265309..d6813f9 100755
--- a/scripts/metavar.py
+++ b/scripts/metavar.py
@@ -497,6 +497,17 @@ class Var:
             subst_dict = {}
         # end if
         cprop_dict = self.copy_prop_dict(subst_dict=subst_dict)
+        # A default value has to have the kind of the variable
+        kind = self.get_prop_value('kind')
+        new_kind = cprop_dict.get('kind', kind)
+        def_val = cprop_dict.get('default_value')
+        if (kind and (new_kind != kind) and isinstance(def_val, str) and
+            def_val.lower().endswith(f"_{kind}".lower())):
+            cprop_dict['default_value'] = def_val[:-len(kind)-1]
+            if new_kind:
+                cprop_dict['default_value'] += f"_{new_kind}"
+            # end if
+        # end if
         if remove_intent and ('intent' in cprop_dict):
             del cprop_dict['intent']
         # end if
-- 
2.43.0


From aeceee8074c098065d5543d733b76b01c91af1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:49 +0000
Subject: [PATCH 77/81] fix: incompatible constituents of different suites were
 accepted

(cherry picked from commit 4b74df8bb012af167ad58cf22ac253a15a5dce8d)
---
 scripts/host_cap.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/scripts/host_cap.py b/scripts/host_cap.py
index 697556d..4ae4093 100644
--- a/scripts/host_cap.py
+++ b/scripts/host_cap.py
@@ -379,7 +379,21 @@ def add_constituent_vars(cap, host_model, suite_list, run_env):
                     const_vars.add(cvar)
                     const_stdnames.add(std_name)
                 # end if
-
+            else:
+                # All suites have to mean the same constituent
+                for prev_var in list(const_vars) + list(tend_vars):
+                    if prev_var.get_prop_value('standard_name') == std_name:
+                        compat = cvar.compatible(prev_var, run_env)
+                        if (not compat.compat) or compat.has_dim_transforms:
+                            reason = compat.incompat_reason or 'dimensions'
+                            errstr = f"Constituent variable, '{std_name}'"
+                            errstr += ", incompatible with the constituent of another"
+                            errstr += f" suite. Reason: '{reason}'"
+                            raise ParseSyntaxError(errstr, token=std_name,
+                                                   context=cvar.context)
+                        # end if
+                    # end if
+                # end for
             # end if
         # end for
     # end for
-- 
2.43.0


From db64fbc0f30047f81cb3168e802f9aa4274552dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:40:23 +0000
Subject: [PATCH 78/81] fix: components of nested DDTs were referred to without
 their parent

(cherry picked from commit e0fd689bea43f6076e14777005f68a5b3fbe679e)
---
 scripts/ddt_library.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/scripts/ddt_library.py b/scripts/ddt_library.py
index 975f865..d829cfa 100644
--- a/scripts/ddt_library.py
+++ b/scripts/ddt_library.py
@@ -38,12 +38,12 @@ class VarDDT(Var):
         source = var_ref.source
         super().__init__(var_ref, source, run_env, context=source.context)
         # Find the correct place for <new_field>
-        if isinstance(var_ref, Var):
-            # We are at a top level DDT var, set our field
-            self.__field = new_field
-        else:
+        if isinstance(var_ref, VarDDT):
             # Recurse to find correct (tail) location for <new_field>
             self.__field = VarDDT(new_field, var_ref.field, run_env, recur=True)
+        else:
+            # We are at a top level DDT var, set our field
+            self.__field = new_field
         # end if
         if ((not recur) and
             run_env.verbose):
-- 
2.43.0


From 4f55b2e91ec3c60fc2c8b92d111f384ef1868b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:40:35 +0000
Subject: [PATCH 79/81] fix: debug checks and suite variables only worked for
 lower bounds of one

(cherry picked from commit 6ea1dbe23c751f67e187d69834611caa233c7f9b)
---
 scripts/metavar.py       |  7 +++++
 scripts/suite_objects.py | 62 +++++++++++++++++++++-------------------
 2 files changed, 40 insertions(+), 29 deletions(-)

diff --git a/scripts/metavar.py b/scripts/metavar.py
index d6813f9..1ce6d4e 100755
--- a/scripts/metavar.py
+++ b/scripts/metavar.py
@@ -31,6 +31,9 @@ from var_props import standard_name_to_long_name, default_kind_val
 
 ##############################################################################
 
+# A dimension bound may be a number instead of a standard name
+INTEGER_RE = re.compile(r"[-+]?[0-9]+$")
+
 # Dictionary of standard CCPP variables
 CCPP_STANDARD_VARS = {
     # Variable representing the constant integer, 1
@@ -642,6 +645,10 @@ class Var:
                 if (not dvar) and add_dims:
                     dnames = []
                     for stdname in dstdnames:
+                        if INTEGER_RE.match(stdname):
+                            dnames.append(stdname)
+                            continue
+                        # end if
                         for vdict in var_dicts:
                             dvar = vdict.find_variable(standard_name=stdname,
                                                        any_scope=False)
diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index 3353ae6..533eea7 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -14,7 +14,7 @@ from code_block import CodeBlock
 from constituents import ConstituentVarDict
 from framework_env import CCPPFrameworkEnv
 from metavar import Var, VarDictionary, VarLoopSubst
-from metavar import CCPP_CONSTANT_VARS, CCPP_LOOP_VAR_STDNAMES
+from metavar import CCPP_CONSTANT_VARS, CCPP_LOOP_VAR_STDNAMES, INTEGER_RE
 from parse_tools import ParseContext, ParseSource, context_string
 from parse_tools import ParseInternalError, CCPPError
 from parse_tools import init_log, set_log_to_null
@@ -1464,15 +1464,13 @@ class Scheme(SuiteObject):
                         raise Exception(f"No dimension with standard name '{dim}'")
                     self.update_group_call_list_variable(dim_var)
                 else:
-                    (ldim, udim) = dim.split(":")
-                    ldim_var = self.find_variable(standard_name=ldim)
-                    if not ldim_var:
-                        raise Exception(f"No dimension with standard name '{ldim}'")
-                    self.update_group_call_list_variable(ldim_var)
-                    udim_var = self.find_variable(standard_name=udim)
-                    if not udim_var:
-                        raise Exception(f"No dimension with standard name '{udim}'")
-                    self.update_group_call_list_variable(udim_var)
+                    for bound in dim.split(":"):
+                        if INTEGER_RE.match(bound):
+                            continue
+                        bound_var = self.find_variable(standard_name=bound)
+                        if not bound_var:
+                            raise Exception(f"No dimension with standard name '{bound}'")
+                        self.update_group_call_list_variable(bound_var)
 
         # Add the variable to the list of variables to check. Record which internal_var to use.
         self.__var_debug_checks.append([var, internal_var])
@@ -1621,28 +1619,30 @@ class Scheme(SuiteObject):
                         (dim_length, dim_string, lbound_string, ubound_string) = \
                             self.replace_horiz_dim_debug_check(dim, cldicts, var_in_call_list)
                     else:
-                        (ldim, udim) = dim.split(":")
-                        # Get dimension for lower bound
-                        for var_dict in cldicts:
-                            dvar = var_dict.find_variable(standard_name=ldim, any_scope=False)
-                            if dvar is not None:
-                                break
-                        if not dvar:
-                            raise Exception(f"No variable with standard name '{ldim}' in cldicts")
-                        ldim_lname = dvar.get_prop_value('local_name')
-                        # Get dimension for upper bound
-                        for var_dict in cldicts:
-                            dvar = var_dict.find_variable(standard_name=udim, any_scope=False)
-                            if dvar is not None:
-                                break
-                        if not dvar:
-                            raise Exception(f"No variable with standard name '{udim}' in cldicts")
-                        udim_lname = dvar.get_prop_value('local_name')
+                        # Get the lower and upper bounds
+                        bound_lnames = []
+                        for bound in dim.split(":"):
+                            if INTEGER_RE.match(bound):
+                                bound_lnames.append(bound)
+                                continue
+                            for var_dict in cldicts:
+                                dvar = var_dict.find_variable(standard_name=bound, any_scope=False)
+                                if dvar is not None:
+                                    break
+                            if not dvar:
+                                raise Exception(f"No variable with standard name '{bound}' in cldicts")
+                            bound_lnames.append(dvar.get_prop_value('local_name'))
+                        (ldim_lname, udim_lname) = bound_lnames
                         # Assemble dimensions and bounds for size checking
                         dim_length = f'{udim_lname}-{ldim_lname}+1'
                         dim_string = ":"
-                        lbound_string = ldim_lname
-                        ubound_string = udim_lname
+                        if var_in_call_list and ldim_lname != '1':
+                            # The bounds of a dummy argument start at one
+                            lbound_string = '1'
+                            ubound_string = dim_length
+                        else:
+                            lbound_string = ldim_lname
+                            ubound_string = udim_lname
                     # end if
                     dim_strings.append(dim_string)
                     lbound_strings.append(lbound_string)
@@ -2597,6 +2597,10 @@ class Group(SuiteObject):
             rdparts = list()
             dparts = dim.split(':')
             for dpart in dparts:
+                if INTEGER_RE.match(dpart):
+                    rdparts.append(dpart)
+                    continue
+                # end if
                 dvar = self.find_variable(standard_name=dpart, any_scope=False)
                 if dvar is None:
                     dvar = self.call_list.find_variable(standard_name=dpart,
-- 
2.43.0


From f334e7cff54dc472ee4b9fec0d3a695e705c15a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:54:50 +0000
Subject: [PATCH 80/81] fix: chunk bounds were not imported by caps of hosts
 that also define horizontal_loop_extent

(cherry picked from commit 5598124306d7d9b366fb1941cfac45f9ad9f56a7)
---
 scripts/mkstatic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/mkstatic.py b/scripts/mkstatic.py
index bc0e033..6630f3b 100755
--- a/scripts/mkstatic.py
+++ b/scripts/mkstatic.py
@@ -1136,7 +1136,7 @@ end module {module}
                                     and not add_var in additional_variables_required + arguments[scheme_name][subroutine_name]:
                                 logging.debug("Adding variable {} for handling blocked data structures".format(add_var))
                                 additional_variables_required.append(add_var)
-                    elif ccpp_stage == 'run' and \
+                    if ccpp_stage == 'run' and \
                             CCPP_HORIZONTAL_LOOP_BEGIN in metadata_define.keys() and \
                             CCPP_HORIZONTAL_LOOP_END in metadata_define.keys() and \
                             CCPP_CHUNK_EXTENT in metadata_define.keys():
-- 
2.43.0


From 4dbd7da5cdcc6400cda65ad0dd60d764fc925d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:43:29 +0000
Subject: [PATCH 81/81] fix: colliding names of suites, groups and tables were
 accepted or crashed

(cherry picked from commit 356f4b24e423e6fdba4f6079ea8041de5a514c44)
---
 scripts/ccpp_capgen.py | 14 +++++---------
 scripts/ccpp_suite.py  | 37 +++++++++++++++++++++++++++++++++++++
 2 files changed, 42 insertions(+), 9 deletions(-)

diff --git a/scripts/ccpp_capgen.py b/scripts/ccpp_capgen.py
index a0f3868..fc28b5b 100755
--- a/scripts/ccpp_capgen.py
+++ b/scripts/ccpp_capgen.py
@@ -440,13 +440,9 @@ def check_fortran_against_metadata(meta_headers, fort_headers,
 def duplicate_item_error(title, filename, itype, orig_item):
 ###############################################################################
     """Raise an error indicating a duplicate item of type, <itype>"""
-    errmsg = "Duplicate {typ}, {title}, found in {file}"
-    edict = {'title':title, 'file':filename, 'typ':itype}
-    ofile = orig_item.context.filename
-    if ofile is not None:
-        errmsg = errmsg + ", original found in {ofile}"
-        edict['ofile'] = ofile
-    # end if
+    errmsg = "Duplicate {typ}, {title}, found in {file}, original found at {octx}"
+    edict = {'title':title, 'file':filename, 'typ':itype,
+             'octx':orig_item.start_context(with_comma=False, nodir=False)}
     raise CCPPError(errmsg.format(**edict))
 
 ###############################################################################
@@ -481,7 +477,7 @@ def parse_host_model_files(host_filenames, host_name, run_env):
         for table in mtables:
             if table.table_name in table_dict:
                 duplicate_item_error(table.table_name, filename,
-                                     table.table_type, table_dict[header.title])
+                                     table.table_type, table_dict[table.table_name])
             else:
                 table_dict[table.table_name] = table
             # end if
@@ -539,7 +535,7 @@ def parse_scheme_files(scheme_filenames, run_env, skip_ddt_check=False):
         for table in mtables:
             if table.table_name in table_dict:
                 duplicate_item_error(table.table_name, filename,
-                                     table.table_type, table_dict[header.title])
+                                     table.table_type, table_dict[table.table_name])
             else:
                 table_dict[table.table_name] = table
             # end if
diff --git a/scripts/ccpp_suite.py b/scripts/ccpp_suite.py
index 5ac76e5..51d9bfb 100644
--- a/scripts/ccpp_suite.py
+++ b/scripts/ccpp_suite.py
@@ -747,8 +747,10 @@ class API(VarDictionary):
         # Turn the SDF files into Suites
         for sdf in sdfs:
             suite = Suite(sdf, self, run_env)
+            self.__check_names(suite)
             suite.analyze(self.host_model, scheme_library,
                           self.__ddt_lib, run_env)
+            self.__check_scheme_names(suite)
             self.__suites.append(suite)
         # end for
         # We will need the correct names for errmsg and errcode
@@ -784,6 +786,41 @@ class API(VarDictionary):
              # end for
         # end for
 
+    def __check_names(self, suite):
+        """Raise an error if the module of <suite> or a routine written for
+        one of its groups has the name of another one."""
+        modules = {x.module.lower() : x for x in self.__suites}
+        if suite.module.lower() in modules:
+            emsg = "Duplicate suite, {}, found in {}, original found in {}"
+            other = modules[suite.module.lower()]
+            raise CCPPError(emsg.format(suite.name, suite.sdf_name,
+                                        other.sdf_name))
+        # end if
+        routines = {g.name.lower() : x for x in self.__suites
+                    for g in x.groups}
+        for group in suite.groups:
+            gname = group.name.lower()
+            if gname in routines:
+                emsg = "Duplicate group name, {}, found in {}, original found in {}"
+                raise CCPPError(emsg.format(group.name, suite.sdf_name,
+                                            routines[gname].sdf_name))
+            # end if
+            routines[gname] = suite
+        # end for
+
+    @staticmethod
+    def __check_scheme_names(suite):
+        """Raise an error if a routine written for a group of <suite> has
+        the name of a scheme routine it has to call."""
+        called = {x.subroutine_name.lower() for g in suite.groups
+                  for x in g.schemes() if x.subroutine_name}
+        for group in suite.groups:
+            if group.name.lower() in called:
+                emsg = "Group name, {}, of suite {} is the name of a scheme routine"
+                raise CCPPError(emsg.format(group.name, suite.name))
+            # end if
+        # end for
+
     @classmethod
     def interface_name(cls, phase):
         'Return the name of an API interface function'
-- 
2.43.0

