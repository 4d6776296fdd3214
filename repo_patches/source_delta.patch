From 3ca2aae884413bfba9303e43078a6282306e57f1 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:31:37 +0000
Subject: [PATCH 01/23] fix: close the f-string in lam_tar_gyre so that the
 package can be imported

---
 gyre-tools/lam_tar_gyre/lam_tar_gyre.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gyre-tools/lam_tar_gyre/lam_tar_gyre.py b/gyre-tools/lam_tar_gyre/lam_tar_gyre.py
index 3551f9f..ec90460 100644
--- a/gyre-tools/lam_tar_gyre/lam_tar_gyre.py
+++ b/gyre-tools/lam_tar_gyre/lam_tar_gyre.py
@@ -86,7 +86,7 @@ class GyreLambdas:
                 sys.exit()
         else:
             logger.error(
-                f"The provided 'base_gyre_dir' ({base_gyre_dir}) was not provided in a suitable way.'
+                f"The provided 'base_gyre_dir' ({base_gyre_dir}) was not provided in a suitable way."
             )
             sys.exit()
 
-- 
2.43.0


From 793d7aa7cf0a8fe9ef5096f5997906cfed30b1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:53 +0000
Subject: [PATCH 02/23] fix: register the solve run's own command line
 arguments

The overloaded argparser set-up method of QuadraticSolveParser had a name that
its base class never calls, so --save_file_name was never registered and every
solve run died with an AttributeError.
---
 aesolver/aerunners/solve_quadratic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aesolver/aerunners/solve_quadratic.py b/aesolver/aerunners/solve_quadratic.py
index 5c5ab3b..e9e96ed 100644
--- a/aesolver/aerunners/solve_quadratic.py
+++ b/aesolver/aerunners/solve_quadratic.py
@@ -62,8 +62,8 @@ class QuadraticSolveParser(GenericParser):
             inlist_suffix=None,
         )
 
-    # overload the read_specific_arguments method
-    def _set_up_specific_argparser(self) -> None:
+    # overload the method that sets up the specific parser groups and arguments
+    def _set_up_specific_argparser_groups_arguments(self) -> None:
         """Overloaded method used to set up a limited amount of parser groups and arguments.
         The majority of all solve run configuration items are passed through an inlist.
         """
-- 
2.43.0


From c02a1da8c486d4b73ab5399642662bd23b0e40bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:38 +0000
Subject: [PATCH 03/23] fix: pass the bin width of histogram_cython_spec_width
 under its real name

The counting function takes bin_width; with my_bw every call raised TypeError.
---
 histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py b/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
index 6cef928..b8b54e7 100644
--- a/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
+++ b/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
@@ -809,7 +809,7 @@ def histogram_cython_spec_width(
         # get the histogram counts
         hist_counts = _cython_histogram_counts(
             my_data=my_data,
-            my_bw=my_bw,
+            bin_width=my_bw,
             bin_phase=bin_phase,
             min_nr_bins=min_nr_bins,
             nr_bins=nr_bins,
-- 
2.43.0


From 96733adff87398e4e8340332584852ea2a495ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:38 +0000
Subject: [PATCH 04/23] fix: report the selected bin width in the verbose
 cython histogram

print_maximal_values takes max_bin_width_edges; verbose=True raised TypeError.
---
 histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py b/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
index b8b54e7..8605311 100644
--- a/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
+++ b/histogram_maker/hogg_jacky/cython_jacky/cy_jacky.py
@@ -469,7 +469,7 @@ def hogg_jackknife_likelihood_cython(
                 # obtain the bin width and combination of parameters that have the maximized likelihood and print them, if verbose == True
                 if verbose:
                     print_maximal_values(
-                        max_bin_width=my_bin_width,
+                        max_bin_width_edges=my_bin_width,
                         max_combo=my_combination,
                         max_bin_phase=my_bin_phase,
                     )
-- 
2.43.0


From bf8bb76248784b9c7c57b6872dc564113f9ace0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:01 +0000
Subject: [PATCH 05/23] fix: keep the loop temporaries of trapz_parallel
 private to each thread

On a non-equally spaced grid they were shared by the team, so the parallel
trapezoid sum depended on the interleaving of the threads.
---
 cpp-numintegrator/num_integrator/num_integration.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cpp-numintegrator/num_integrator/num_integration.cpp b/cpp-numintegrator/num_integrator/num_integration.cpp
index ca1f3e4..7bf617e 100644
--- a/cpp-numintegrator/num_integrator/num_integration.cpp
+++ b/cpp-numintegrator/num_integrator/num_integration.cpp
@@ -104,13 +104,13 @@ double NumericalDoubleInputIntegrator::trapz_parallel() {
     return sum_result * increment;
   } else {
     // initialize local variables
-    double local_integrand_sum, local_increment, integration_result = 0.0;
+    double integration_result = 0.0;
 // update the integration result using the non-equal spaced grid
 #pragma omp parallel for num_threads(numthreads) shared(my_var, my_integrand)  \
     reduction(+ : integration_result)
     for (int i = 1; i < this->arr_size; i++) {
-      local_increment = my_var[i] - my_var[i - 1];
-      local_integrand_sum = (my_integrand[i] + my_integrand[i - 1]) / 2.0;
+      double local_increment = my_var[i] - my_var[i - 1];
+      double local_integrand_sum = (my_integrand[i] + my_integrand[i - 1]) / 2.0;
       integration_result += local_integrand_sum * local_increment;
     }
     // return the integration result
-- 
2.43.0


From 8508977e9fc3b0ea7eb5d2e0f7bdf3e70c6f581f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:15 +0000
Subject: [PATCH 06/23] fix: store the Wu statistic, not the average radial
 order, as the Wu statistic

---
 aesolver/aesolver/data_handling/unpacker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aesolver/aesolver/data_handling/unpacker.py b/aesolver/aesolver/data_handling/unpacker.py
index 75913de..0e808cc 100644
--- a/aesolver/aesolver/data_handling/unpacker.py
+++ b/aesolver/aesolver/data_handling/unpacker.py
@@ -334,7 +334,7 @@ class UnPacker:
         self._wu_rule = np.empty((self._nr_combos,), dtype=np.int64)
         # - unpack the data and store it
         for _i, _couple_stat in enumerate(self._coupling_stats):
-            self._wu_rule[_i] = _couple_stat[0]
+            self._wu_rule[_i] = _couple_stat[1]
 
     def _unpack_mode_information(self) -> None:
         """Method that unpacks the (GYRE) mode information: the quantum numbers."""
-- 
2.43.0


From b187613fec93a2fcd7935342c7582d4b0ed389b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:38 +0000
Subject: [PATCH 07/23] fix: replace a result file only once the new results
 are complete and on disk

---
 .../data_handling/data_specific/hdf5_saver.py | 63 ++++++++++++++++++-
 1 file changed, 61 insertions(+), 2 deletions(-)

diff --git a/aesolver/aesolver/data_handling/data_specific/hdf5_saver.py b/aesolver/aesolver/data_handling/data_specific/hdf5_saver.py
index 9ed1193..34556bd 100644
--- a/aesolver/aesolver/data_handling/data_specific/hdf5_saver.py
+++ b/aesolver/aesolver/data_handling/data_specific/hdf5_saver.py
@@ -4,10 +4,15 @@ Author: Jordan Van Beeck <jordanvanbeeck@hotmail.com>
 """
 # import statements
 import logging
+import os
 import re
+import uuid
 import h5py as h5
 import numpy as np
 
+from io import BytesIO
+from pathlib import Path
+
 # import from intra-package modules
 from .hdf5_specific import create_group_path_dataset, overwrite_dataset
 from ..unpacker import UnPacker
@@ -243,9 +248,63 @@ class HDF5Saver:
             )
 
     def save_data(self) -> None:
-        """Saves the numerical data in the HDF5 file."""
+        """Saves the numerical data in the HDF5 file.
+
+        Notes
+        -----
+        The contents of the file are assembled in memory, and only replace the previous contents of the file once they are complete and on disk. A save that fails or is interrupted thus leaves any previously saved file as it was.
+        """
+        # assemble the file in memory (starting from the data that are already stored, if these need to be kept)
+        if self._h5_mode == 'r+' or (
+            self._h5_mode == 'a' and os.path.exists(self._file_path)
+        ):
+            _buffer = BytesIO(Path(self._file_path).read_bytes())
+            self._write_data(_buffer, 'r+')
+        else:
+            _buffer = BytesIO()
+            self._write_data(_buffer, 'w')
+        # store the assembled file
+        self._replace_file(_buffer.getvalue())
+
+    def _replace_file(self, contents: bytes) -> None:
+        """Replaces the file by a file with the given contents, so that either the old or the new contents are on disk at any time.
+
+        Parameters
+        ----------
+        contents : bytes
+            The contents of the file.
+        """
+        # the file itself is replaced if the path is a link
+        _path = Path(os.path.realpath(self._file_path))
+        _temporary = _path.with_name(f'.{uuid.uuid4().hex}.tmp')
+        try:
+            with open(_temporary, 'xb') as _stream:
+                _stream.write(contents)
+                _stream.flush()
+                os.fsync(_stream.fileno())
+            os.replace(_temporary, _path)
+        except BaseException:
+            _temporary.unlink(missing_ok=True)
+            raise
+        # make sure that the replacement is on disk
+        _directory = os.open(_path.parent, os.O_RDONLY)
+        try:
+            os.fsync(_directory)
+        finally:
+            os.close(_directory)
+
+    def _write_data(self, stream: BytesIO, mode: str) -> None:
+        """Writes the numerical data to a stream, in HDF5 format.
+
+        Parameters
+        ----------
+        stream : BytesIO
+            The stream to which the data are written.
+        mode : str
+            The mode in which the stream is opened by h5py.
+        """
         # open a file stream so that you can write data to the HDF5 file
-        with h5.File(self._file_path, self._h5_mode) as _h5file:
+        with h5.File(stream, mode) as _h5file:
             # create numerical integration attributes (in base group)
             self._create_grouped_attributes(
                 _h5file,
-- 
2.43.0


From 7ba336220c79204eab6f4e011a59663fb56b101a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:05 +0000
Subject: [PATCH 08/23] fix: replace a dataset of another shape instead of
 broadcasting the new values into it

---
 .../data_specific/hdf5_specific/overwrite_dataset.py       | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/aesolver/aesolver/data_handling/data_specific/hdf5_specific/overwrite_dataset.py b/aesolver/aesolver/data_handling/data_specific/hdf5_specific/overwrite_dataset.py
index 0be167d..698cb85 100644
--- a/aesolver/aesolver/data_handling/data_specific/hdf5_specific/overwrite_dataset.py
+++ b/aesolver/aesolver/data_handling/data_specific/hdf5_specific/overwrite_dataset.py
@@ -34,10 +34,13 @@ def overwrite_dataset(
     try:
         # obtain the previous data
         _previous_data = h5file_stream[dataset_path]
-        # overwrite for empty data or when data types are the same
+        # overwrite for empty data or when data types and shapes are the same
         if (is_ds := isinstance(_previous_data, h5.Dataset)) and (
             isinstance(overwrite_value, h5.Empty)
-            or (_previous_data.dtype == overwrite_value.dtype)
+            or (
+                _previous_data.dtype == overwrite_value.dtype
+                and _previous_data.shape == overwrite_value.shape
+            )
         ):
             # overwrite it
             _previous_data[...] = overwrite_value
-- 
2.43.0


From 32aaea6c0c245f09964e5ebca8924719f22254a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:00 +0000
Subject: [PATCH 09/23] fix: save the result file inside the requested
 subdirectory

---
 aesolver/aesolver/data_handling/storer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aesolver/aesolver/data_handling/storer.py b/aesolver/aesolver/data_handling/storer.py
index 2b2eb94..5e2612b 100644
--- a/aesolver/aesolver/data_handling/storer.py
+++ b/aesolver/aesolver/data_handling/storer.py
@@ -202,7 +202,7 @@ class NumericalSaver:
         Path(f'{_sub_directory_name}').mkdir(parents=True, exist_ok=True)
         # -- store full path/name of file
         self._save_name = (
-            f'{_sub_directory_name}{save_name}.{self._save_suffix}'
+            f'{_sub_directory_name.rstrip("/")}/{save_name}.{self._save_suffix}'
         )
 
     def _read_data_from_solver(self) -> None:
-- 
2.43.0


From 7e0cd19040091831aea39e07c68c3fc780837b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:40 +0000
Subject: [PATCH 10/23] fix: add the quantum numbers to every result file name,
 also those with dashes or dots

---
 aesolver/aesolver/data_handling/data_specific/hdf5_saver.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aesolver/aesolver/data_handling/data_specific/hdf5_saver.py b/aesolver/aesolver/data_handling/data_specific/hdf5_saver.py
index 34556bd..07a1c71 100644
--- a/aesolver/aesolver/data_handling/data_specific/hdf5_saver.py
+++ b/aesolver/aesolver/data_handling/data_specific/hdf5_saver.py
@@ -5,7 +5,6 @@ Author: Jordan Van Beeck <jordanvanbeeck@hotmail.com>
 # import statements
 import logging
 import os
-import re
 import uuid
 import h5py as h5
 import numpy as np
@@ -87,8 +86,9 @@ class HDF5Saver:
         # construct the quantum number based string
         _qnr_string = f"_k_{'_'.join(self._unpacked_data._mode_k.astype(str))}_m_{'_'.join(self._unpacked_data._mode_m.astype(str))}"
         # substitute this string into the file path name
-        self._file_path = re.sub(
-            r'(.*\/\w+)(\.\w+)', rf'\1{_qnr_string}\2', self._file_path
+        _path = Path(self._file_path)
+        self._file_path = str(
+            _path.with_name(f'{_path.stem}{_qnr_string}{_path.suffix}')
         )
 
     def _create_base_attribute(
-- 
2.43.0


From 92bc0ac5d519ca2d418f1b6ed4f92bf9b3b047f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:39 +0000
Subject: [PATCH 11/23] fix: combine the daughters' radial orders as given when
 the daughters are of different kind

---
 .../mode_input_generator/input_generator.py    | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/aesolver/aesolver/mode_input_generator/input_generator.py b/aesolver/aesolver/mode_input_generator/input_generator.py
index fd8968b..89cdf19 100644
--- a/aesolver/aesolver/mode_input_generator/input_generator.py
+++ b/aesolver/aesolver/mode_input_generator/input_generator.py
@@ -8,7 +8,7 @@ import statistics
 import numpy as np
 
 # from custom modules import combination computation objects
-from py_combinations import SingleSetCombos, SymmetricProductCombos
+from py_combinations import CartesianCombos, SingleSetCombos, SymmetricProductCombos
 
 
 # set up the logger
@@ -80,6 +80,17 @@ class AdNadModeInfoInputGenerator:
         self._compute_wu_difference_statistics()
         logger.debug('Mode statistics computed.')
 
+    def _daughters_are_interchangeable(self) -> bool:
+        """Determines whether the two damped modes have the same nonradial geometry, so that the order of their radial orders is of no importance.
+
+        Returns
+        -------
+        bool
+            True if the damped modes have the same degree and azimuthal order.
+        """
+        _l, _m = np.broadcast_to(self.mode_l, 3), np.broadcast_to(self.mode_m, 3)
+        return bool(_l[1] == _l[2] and _m[1] == _m[2])
+
     def _get_damped_combinations(
         self, include_diagonal: bool = True
     ) -> list[tuple]:
@@ -90,6 +101,11 @@ class AdNadModeInfoInputGenerator:
         list[tuple]
             Contains tuples of radial orders of second-order combinations of damped modes.
         """
+        # the order of the daughters matters if they are not of the same kind
+        if not self._daughters_are_interchangeable():
+            return CartesianCombos(
+                self._damped_rad_order_range_1, self._damped_rad_order_range_2
+            ).l
         # initialize the object
         my_object = SymmetricProductCombos(
             A=self._damped_rad_order_range_1,
-- 
2.43.0


From e8570b3deeff1548abc576d7eca63fcf35e58452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:36 +0000
Subject: [PATCH 12/23] fix: match the whole suffix when selecting structure
 files

---
 aesolver/aesolver/model_handling/subselection_classes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aesolver/aesolver/model_handling/subselection_classes.py b/aesolver/aesolver/model_handling/subselection_classes.py
index 7ca2077..772d442 100644
--- a/aesolver/aesolver/model_handling/subselection_classes.py
+++ b/aesolver/aesolver/model_handling/subselection_classes.py
@@ -187,7 +187,7 @@ class MESAProfileSubSelector(SubSelectorFiles):
                 'not_gyre': ('gyre', False),
             },
             pattern_dictionary={
-                'file_suffix': re.compile(rf'.+\.({mesa_file_suffix})'),
+                'file_suffix': re.compile(rf'.+\.({mesa_file_suffix})$'),
                 'not_gyre': re.compile(r'.+(gyre|GYRE).*'),
             },
         )
@@ -439,7 +439,7 @@ class PolytropeModelSubSelector(SubSelectorFiles):
         super().__init__(
             search_elements={'file_suffix': (polytrope_model_suffix, True)},
             pattern_dictionary={
-                'file_suffix': re.compile(rf'.+\.({polytrope_model_suffix})')
+                'file_suffix': re.compile(rf'.+\.({polytrope_model_suffix})$')
             },
         )
 
-- 
2.43.0


From b9c3793220290871f50536fb27f880e7b18cf241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:39 +0000
Subject: [PATCH 13/23] fix: refuse a MESA profile that was cut short

---
 .../aesolver/model_handling/read_models.py    | 32 +++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/aesolver/aesolver/model_handling/read_models.py b/aesolver/aesolver/model_handling/read_models.py
index 0ae9217..0b059ba 100644
--- a/aesolver/aesolver/model_handling/read_models.py
+++ b/aesolver/aesolver/model_handling/read_models.py
@@ -148,6 +148,8 @@ class ModelReader:
         if TYPE_CHECKING:
             assert isinstance(my_read, pd.DataFrame | pd.Series)
         _my_header_info = my_read.iloc[0]
+        # make sure that the profile is complete
+        self._verify_all_zones_present(file_path, _my_header_info)
         # loop over the attributes, and add them to the dictionary, if present
         for _possible_attr in attributes:
             # add to the dictionary
@@ -167,6 +169,36 @@ class ModelReader:
         # return the data dictionary
         return my_data
 
+    # method that verifies that a MESA profile was not cut short
+    @staticmethod
+    def _verify_all_zones_present(
+        file_path: str, header_info: 'pd.Series'
+    ) -> None:
+        """Internal method that verifies that a MESA profile.dat file contains all of its zones.
+
+        Parameters
+        ----------
+        file_path: str
+            The path to the file that was read.
+        header_info : pd.Series
+            The header information of the profile.
+
+        Raises
+        ------
+        ValueError
+            If zones, or parts of the last zone, are missing.
+        """
+        # the zones are the (fixed-width) rows below the six header rows
+        with open(file_path) as _file:
+            _text = _file.read()
+        _zones = [_row for _row in _text.splitlines()[6:] if _row.strip()]
+        if len(_zones) != int(header_info.get('num_zones', len(_zones))) or (
+            not _text.endswith('\n') and len(_zones[-1]) < len(_zones[0])
+        ):
+            raise ValueError(
+                f'The MESA profile {file_path} is incomplete: it was cut short.'
+            )
+
     # method that handles how data from the text files are read
     def _text_reader(
         self, file_path: str, attributes: list[str]
-- 
2.43.0


From 6aa670bb894b2714de866be431b88ae779dc9573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:04 +0000
Subject: [PATCH 14/23] fix: find the inlist of analysis and plot runs in a
 checkout named AESolver

---
 aesolver/aerunners/analyze_quadratic.py | 2 +-
 aesolver/aerunners/plot_quadratic.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/aesolver/aerunners/analyze_quadratic.py b/aesolver/aerunners/analyze_quadratic.py
index 52409c5..87b47f5 100644
--- a/aesolver/aerunners/analyze_quadratic.py
+++ b/aesolver/aerunners/analyze_quadratic.py
@@ -40,7 +40,7 @@ class QuadraticAnalysisParser(GenericParser):
         full_inlist_path=None,
     ) -> None:
         super().__init__(
-            base_directory_name='amplitude_equations_solver',
+            base_directory_name='AESolver',
             full_inlist_path=full_inlist_path,
             base_dir=None,
             inlist_name=None,
diff --git a/aesolver/aerunners/plot_quadratic.py b/aesolver/aerunners/plot_quadratic.py
index 64cd2ee..d16028f 100644
--- a/aesolver/aerunners/plot_quadratic.py
+++ b/aesolver/aerunners/plot_quadratic.py
@@ -46,7 +46,7 @@ class QuadraticPlotParser(GenericParser):
         full_inlist_path=None,
     ) -> None:
         super().__init__(
-            base_directory_name='amplitude_equations_solver',
+            base_directory_name='AESolver',
             full_inlist_path=full_inlist_path,
             base_dir=None,
             inlist_name=None,
-- 
2.43.0


From 07150a7fcef3bcd3ab443216cb09744076677b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:04 +0000
Subject: [PATCH 15/23] fix: accept a parent that takes part in a single triad
 when masking

---
 aesolver/ae_analyzer/library_functions/masking.py | 4 ++++
 aesolver/aeplotter/library_functions/masking.py   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/aesolver/ae_analyzer/library_functions/masking.py b/aesolver/ae_analyzer/library_functions/masking.py
index 1a2b944..98a3a83 100644
--- a/aesolver/ae_analyzer/library_functions/masking.py
+++ b/aesolver/ae_analyzer/library_functions/masking.py
@@ -251,6 +251,10 @@ def compare_second_lowest_thresholds_with_lowest_threshold_equilibrium_amp(
         # get equilibrium and threshold amplitudes
         _eqs = eq_amps[_mask_parent]
         _threshs = threshs[_mask_parent]
+        # a single triad has no competitors: there is no second threshold
+        if _threshs.shape[0] == 1:
+            mask_arr[_mask_parent] = True
+            continue
         # determine the second smallest threshold amplitude
         _arg_part = np.argpartition(_threshs, 1)
         _second_lowest_thresh = _threshs[_arg_part[1]]
diff --git a/aesolver/aeplotter/library_functions/masking.py b/aesolver/aeplotter/library_functions/masking.py
index 6989083..2670beb 100644
--- a/aesolver/aeplotter/library_functions/masking.py
+++ b/aesolver/aeplotter/library_functions/masking.py
@@ -251,6 +251,10 @@ def compare_second_lowest_thresholds_with_lowest_threshold_equilibrium_amp(
         # get equilibrium and threshold amplitudes
         _eqs = eq_amps[_mask_parent]
         _threshs = threshs[_mask_parent]
+        # a single triad has no competitors: there is no second threshold
+        if _threshs.shape[0] == 1:
+            mask_arr[_mask_parent] = True
+            continue
         # determine the second smallest threshold amplitude
         _arg_part = np.argpartition(_threshs, 1)
         _second_lowest_thresh = _threshs[_arg_part[1]]
-- 
2.43.0


From a71be439efc8659307ff9f3f8292dda1b88250c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:04 +0000
Subject: [PATCH 16/23] fix: report on every model, also beyond the seventh

---
 aesolver/ae_analyzer/quadratic_stationary_analyzer.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/aesolver/ae_analyzer/quadratic_stationary_analyzer.py b/aesolver/ae_analyzer/quadratic_stationary_analyzer.py
index 133a7c0..d05f50a 100644
--- a/aesolver/ae_analyzer/quadratic_stationary_analyzer.py
+++ b/aesolver/ae_analyzer/quadratic_stationary_analyzer.py
@@ -112,8 +112,14 @@ class QuadraticAEStationaryAnalyzer:
         self._freq_unit = requested_frequency_unit
         # load and compute the data for the analysis
         self._load_and_compute_data()
-        # store the model names
-        self._model_names = model_names
+        # store the model names (models without a specified name get a generic one)
+        self._model_names = [
+            *model_names,
+            *(
+                f'model{_i + 1}'
+                for _i in range(len(model_names), len(self._list_data_dict))
+            ),
+        ]
 
     # loads the plot data during initialization
     def _load_and_compute_data(self) -> None:
-- 
2.43.0


From c5ea67a7dbdfb390cd6ddd25b4a2e318ed3fba67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:04 +0000
Subject: [PATCH 17/23] fix: plot the sharpness histogram of a single triad

---
 aesolver/aeplotter/resonance_sharpness/histogram.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aesolver/aeplotter/resonance_sharpness/histogram.py b/aesolver/aeplotter/resonance_sharpness/histogram.py
index a04b2d9..755dce1 100644
--- a/aesolver/aeplotter/resonance_sharpness/histogram.py
+++ b/aesolver/aeplotter/resonance_sharpness/histogram.py
@@ -91,7 +91,7 @@ def get_sharpness_histogram_plot_data(
         empirical_density=False,
     )
     # get the minimal number of bins (GUARD)
-    my_min_nr_bins = 1 if log_bin_width_all is None else len(log_bin_width_all)
+    my_min_nr_bins = 1 if log_bin_width_all is None else np.size(log_bin_width_all)
     # compute sharpness histogram for isolated triads
     log_hist_prob_isolated_all = histogram_blas_log_spec_edges(
         my_data=np.abs(resonance_sharpness_object.sharpness_isolated),
-- 
2.43.0


From fba9aaa6c3507826625a41ca88823e0c4643a358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:00 +0000
Subject: [PATCH 18/23] fix: analyse and plot models given as single files
 beside models given as lists of files

When the first model is a plain file name and a later one a list of names,
the dispatch on the first element selected the overload for lists of
names, which could not load the lists.
---
 aesolver/ae_analyzer/quadratic_stationary_analyzer.py | 10 ++++++++++
 aesolver/aeplotter/quadratic_plotter.py               | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/aesolver/ae_analyzer/quadratic_stationary_analyzer.py b/aesolver/ae_analyzer/quadratic_stationary_analyzer.py
index d05f50a..09b1686 100644
--- a/aesolver/ae_analyzer/quadratic_stationary_analyzer.py
+++ b/aesolver/ae_analyzer/quadratic_stationary_analyzer.py
@@ -156,6 +156,10 @@ class QuadraticAEStationaryAnalyzer:
     def _load_analysis_data(
         self, my_file_name_or_names: list[str]
     ) -> None:
+        # single files that are mixed with lists of files are separate models
+        if not all(isinstance(_name, str) for _name in my_file_name_or_names):
+            self._load_separate_models(my_file_name_or_names)
+            return
         # load the data for each of the individual files
         loaded_data_files = [
             self._load_specific_file_data(file_path=_linked_name)
@@ -172,6 +176,12 @@ class QuadraticAEStationaryAnalyzer:
     @multimethod
     def _load_analysis_data(
         self, my_file_name_or_names: list[list[str]]
+    ) -> None:
+        # every element is a separate model
+        self._load_separate_models(my_file_name_or_names)
+
+    def _load_separate_models(
+        self, my_file_name_or_names: 'list[str | list[str]]'
     ) -> None:
         # load the data for each of the individual files
         self._list_data_dict = []
diff --git a/aesolver/aeplotter/quadratic_plotter.py b/aesolver/aeplotter/quadratic_plotter.py
index 33c61c9..e4e4070 100644
--- a/aesolver/aeplotter/quadratic_plotter.py
+++ b/aesolver/aeplotter/quadratic_plotter.py
@@ -234,6 +234,10 @@ class QuadraticAEPlotter:
     def _load_sharpness_overview_data(
         self, my_file_name_or_names: list[str]
     ) -> None:
+        # single files that are mixed with lists of files are separate models
+        if not all(isinstance(_name, str) for _name in my_file_name_or_names):
+            self._load_separate_models(my_file_name_or_names)
+            return
         # load the data for each of the individual files
         loaded_data_files = [
             self._load_specific_file_data(file_path=_linked_name)
@@ -250,6 +254,12 @@ class QuadraticAEPlotter:
     @multimethod
     def _load_sharpness_overview_data(
         self, my_file_name_or_names: list[list[str]]
+    ) -> None:
+        # every element is a separate model
+        self._load_separate_models(my_file_name_or_names)
+
+    def _load_separate_models(
+        self, my_file_name_or_names: 'list[str | list[str]]'
     ) -> None:
         # load the data for each of the individual files
         self._list_data_dict = []
-- 
2.43.0


From 4651f00205a4af9b5adf3fd4068226d4e0ee018d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:00 +0000
Subject: [PATCH 19/23] fix: find inlists whose name contains a dot

---
 util-tools/generic_parser/generic_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util-tools/generic_parser/generic_parser.py b/util-tools/generic_parser/generic_parser.py
index 9b42a62..4b85011 100644
--- a/util-tools/generic_parser/generic_parser.py
+++ b/util-tools/generic_parser/generic_parser.py
@@ -186,7 +186,7 @@ class GenericParser:
             _inlist_suffix = full_inlist_path.name.split('.')[-1]  # type: ignore
             # - get file name
             try:
-                _inlist_name = full_inlist_path.name.split('.')[0]  # type: ignore
+                _inlist_name = full_inlist_path.name.rsplit('.', 1)[0]  # type: ignore
             except AttributeError:
                 my_exceptions.append(
                     TypeError(f'The inlist name {_common_error}')
-- 
2.43.0


From 330592f1471a98d809363dadb0d47d3059f9a551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:00 +0000
Subject: [PATCH 20/23] fix: stop when the inlist lacks a setting that
 determines the results

---
 aesolver/aerunners/solve_quadratic.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/aesolver/aerunners/solve_quadratic.py b/aesolver/aerunners/solve_quadratic.py
index e9e96ed..5062ad3 100644
--- a/aesolver/aerunners/solve_quadratic.py
+++ b/aesolver/aerunners/solve_quadratic.py
@@ -334,6 +334,22 @@ class QuadraticSolveParser(GenericParser):
                 ('view_term_by_term', ['plotting', 'profile', 'show_term_by_term'], False),
             ]
         )
+        # these settings determine what is computed and where it is stored, so that
+        # none of them may be missing (e.g. because the inlist is incomplete)
+        if _missing := [
+            _key
+            for _dict in (
+                my_mode_computation_info_dict,
+                my_poly_model_dict,
+                my_ang_integ_dict,
+                my_save_dict,
+            )
+            for _key, _val in _dict.items()
+            if _val is None
+        ]:
+            raise KeyError(
+                f'The inlist {self.inlist_path} does not specify: {", ".join(_missing)}.'
+            )
         # return the information dictionaries
         return (
             my_save_dict,
-- 
2.43.0


From 9ac78d6b772f32f18a589410edf0d9e5d6184c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:00 +0000
Subject: [PATCH 21/23] fix: read the inlist of a solve run once

---
 aesolver/aerunners/solve_quadratic.py             |  3 +++
 .../aesolver/read_load_info/read_info_dirs.py     | 15 +++++++++++----
 aesolver/aesolver/solver/quadratic_grid.py        |  4 ++--
 aesolver/aesolver/solver/quadratic_profile.py     |  4 ++--
 .../solver_base_classes/quadratic_solver.py       |  2 ++
 util-tools/generic_parser/generic_parser.py       | 11 +++++++++++
 6 files changed, 31 insertions(+), 8 deletions(-)

diff --git a/aesolver/aerunners/solve_quadratic.py b/aesolver/aerunners/solve_quadratic.py
index 5062ad3..142d689 100644
--- a/aesolver/aerunners/solve_quadratic.py
+++ b/aesolver/aerunners/solve_quadratic.py
@@ -542,6 +542,7 @@ def _perform_computations(comp: 'ComputationDict', mode_computation: 'ModeComput
                 ad_path=poly_modes,
                 nad_path=None,
                 inlist_path=my_solve_parser.inlist_path,
+                inlist_data=my_solve_parser.inlist_data,
                 toml_use=use_toml,
                 use_parallel=comp['use_parallel'],
                 get_debug_info=get_debug_info,
@@ -563,6 +564,7 @@ def _perform_computations(comp: 'ComputationDict', mode_computation: 'ModeComput
                 ad_path=ad,
                 nad_path=nad,
                 inlist_path=my_solve_parser.inlist_path,
+                inlist_data=my_solve_parser.inlist_data,
                 toml_use=use_toml,
                 use_parallel=comp['use_parallel'],
                 get_debug_info=get_debug_info,
@@ -585,6 +587,7 @@ def _perform_computations(comp: 'ComputationDict', mode_computation: 'ModeComput
             ad_path=ad,
             nad_path=nad,
             inlist_path=my_solve_parser.inlist_path,
+            inlist_data=my_solve_parser.inlist_data,
             toml_use=use_toml,
             use_parallel=comp['use_parallel'],
             get_debug_info=get_debug_info,
diff --git a/aesolver/aesolver/read_load_info/read_info_dirs.py b/aesolver/aesolver/read_load_info/read_info_dirs.py
index 62b189b..73355d6 100644
--- a/aesolver/aesolver/read_load_info/read_info_dirs.py
+++ b/aesolver/aesolver/read_load_info/read_info_dirs.py
@@ -44,6 +44,7 @@ class InformationDirectoriesHandler:
     _sys_args: list[str]
     _use_toml_inlist: bool
     _toml_inlist_path: str | None
+    _toml_inlist_data: dict | None
     _directory_path: str
     _file_name: str
     _full_path: str
@@ -64,6 +65,7 @@ class InformationDirectoriesHandler:
         alternative_file_name: str | None = None,
         toml_use: bool = False,
         inlist_path: str | None = None,
+        inlist_data: dict | None = None,
     ) -> None:
         # store system arguments
         self._sys_args = sys_arguments
@@ -83,6 +85,8 @@ class InformationDirectoriesHandler:
             )
             self._use_toml_inlist = False
             self._toml_inlist_path = None
+        # store the contents of the toml inlist, if that was already read
+        self._toml_inlist_data = inlist_data
         # - generic setup
         # initialize the information dictionary
         self._information_dict = {}
@@ -266,10 +270,13 @@ class InformationDirectoriesHandler:
             # import the toml inlist handler which contains the tomllib import
             from inlist_handler import TomlInlistHandler
 
-            # load the full toml-style inlist
-            my_toml_data = TomlInlistHandler.get_inlist_values(
-                self._toml_inlist_path
-            )
+            # load the full toml-style inlist, unless that was already done: the
+            # file may have changed since
+            my_toml_data = self._toml_inlist_data
+            if my_toml_data is None:
+                my_toml_data = TomlInlistHandler.get_inlist_values(
+                    self._toml_inlist_path
+                )
             # get symbolic links for sub-dictionaries
             infodict = my_toml_data['information_folders']
             MESAdict = infodict['MESA']
diff --git a/aesolver/aesolver/solver/quadratic_grid.py b/aesolver/aesolver/solver/quadratic_grid.py
index ac6737c..04b2a05 100644
--- a/aesolver/aesolver/solver/quadratic_grid.py
+++ b/aesolver/aesolver/solver/quadratic_grid.py
@@ -42,9 +42,9 @@ class QuadraticAEGridSolver(QuadraticAESolver):
     
     # attribute type declarations
     
-    def __init__(self, sys_args: list, called_from_pytest: bool = False, pytest_path: Path | None = None, rot_pct: int = 20, use_complex: bool = False, adiabatic: bool = True, use_rotating_formalism: bool = True, base_dir: str | None = None, alternative_directory_path: str | None = None, alternative_file_name: str | None = None, use_symbolic_profiles: bool = True, use_brunt_def: bool = True, mode_selection_dict: 'dict[str, Any] | None' = None, nr_omp_threads: int = 4, use_parallel: bool = False, ld_function: str = 'eddington', numerical_integration_method: str = 'trapz', use_cheby_integration: bool = False, cheby_order_multiplier: int = 4, cheby_blow_up_protection: bool = False, cheby_blow_up_factor: float = 1000, stationary_solving: bool = True, ad_path: str | None = None, nad_path: str | None = None, inlist_path: str | None = None, toml_use: bool = False, get_debug_info: bool = False, terms_cc_conj: tuple[bool, bool, bool] | bool | None = None, polytrope_comp: bool = False, analytic_polytrope: bool = False, polytrope_mass: float = 3, polytrope_radius: float = 4.5, progress_bars: bool=False) -> None:
+    def __init__(self, sys_args: list, called_from_pytest: bool = False, pytest_path: Path | None = None, rot_pct: int = 20, use_complex: bool = False, adiabatic: bool = True, use_rotating_formalism: bool = True, base_dir: str | None = None, alternative_directory_path: str | None = None, alternative_file_name: str | None = None, use_symbolic_profiles: bool = True, use_brunt_def: bool = True, mode_selection_dict: 'dict[str, Any] | None' = None, nr_omp_threads: int = 4, use_parallel: bool = False, ld_function: str = 'eddington', numerical_integration_method: str = 'trapz', use_cheby_integration: bool = False, cheby_order_multiplier: int = 4, cheby_blow_up_protection: bool = False, cheby_blow_up_factor: float = 1000, stationary_solving: bool = True, ad_path: str | None = None, nad_path: str | None = None, inlist_path: str | None = None, toml_use: bool = False, get_debug_info: bool = False, terms_cc_conj: tuple[bool, bool, bool] | bool | None = None, polytrope_comp: bool = False, analytic_polytrope: bool = False, polytrope_mass: float = 3, polytrope_radius: float = 4.5, progress_bars: bool=False, inlist_data: dict | None = None) -> None:
         # initialize the super-class
-        super().__init__(sys_args, called_from_pytest, pytest_path, rot_pct, use_complex, adiabatic, use_rotating_formalism, base_dir, alternative_directory_path, alternative_file_name, use_symbolic_profiles, use_brunt_def, nr_omp_threads, use_parallel, ld_function, numerical_integration_method, use_cheby_integration, cheby_order_multiplier, cheby_blow_up_protection, cheby_blow_up_factor, stationary_solving, ad_path, nad_path, inlist_path, toml_use, get_debug_info, terms_cc_conj, polytrope_comp, analytic_polytrope, polytrope_mass, polytrope_radius, progress_bars)
+        super().__init__(sys_args, called_from_pytest, pytest_path, rot_pct, use_complex, adiabatic, use_rotating_formalism, base_dir, alternative_directory_path, alternative_file_name, use_symbolic_profiles, use_brunt_def, nr_omp_threads, use_parallel, ld_function, numerical_integration_method, use_cheby_integration, cheby_order_multiplier, cheby_blow_up_protection, cheby_blow_up_factor, stationary_solving, ad_path, nad_path, inlist_path, toml_use, get_debug_info, terms_cc_conj, polytrope_comp, analytic_polytrope, polytrope_mass, polytrope_radius, progress_bars, inlist_data)
         # set up the mode information object
         if mode_selection_dict is None:
                 self._mode_info_object = InputGen(
diff --git a/aesolver/aesolver/solver/quadratic_profile.py b/aesolver/aesolver/solver/quadratic_profile.py
index 6f1f877..ab78c7f 100644
--- a/aesolver/aesolver/solver/quadratic_profile.py
+++ b/aesolver/aesolver/solver/quadratic_profile.py
@@ -67,9 +67,9 @@ class QuadraticAEProfileSolver(QuadraticAESolver):
     
     # attribute type declarations
     
-    def __init__(self, sys_args: list, cc_profile_selection_dict: dict[str, int], called_from_pytest: bool = False, pytest_path: Path | None = None, rot_pct: int = 20, use_complex: bool = False, adiabatic: bool = True, use_rotating_formalism: bool = True, base_dir: str | None = None, alternative_directory_path: str | None = None, alternative_file_name: str | None = None, use_symbolic_profiles: bool = True, use_brunt_def: bool = True, nr_omp_threads: int = 4, use_parallel: bool = False, ld_function: str = 'eddington', numerical_integration_method: str = 'trapz', use_cheby_integration: bool = False, cheby_order_multiplier: int = 4, cheby_blow_up_protection: bool = False, cheby_blow_up_factor: float = 1000, stationary_solving: bool = True, ad_path: str | None = None, nad_path: str | None = None, inlist_path: str | None = None, toml_use: bool = False, get_debug_info: bool = False, terms_cc_conj: tuple[bool, bool, bool] | bool | None = None, polytrope_comp: bool = False, analytic_polytrope: bool = False, polytrope_mass: float = 3, polytrope_radius: float = 4.5, save_name: str = '', view_term_by_term: bool=True, view_kernels: bool=True, progress_bars: bool=False) -> None:
+    def __init__(self, sys_args: list, cc_profile_selection_dict: dict[str, int], called_from_pytest: bool = False, pytest_path: Path | None = None, rot_pct: int = 20, use_complex: bool = False, adiabatic: bool = True, use_rotating_formalism: bool = True, base_dir: str | None = None, alternative_directory_path: str | None = None, alternative_file_name: str | None = None, use_symbolic_profiles: bool = True, use_brunt_def: bool = True, nr_omp_threads: int = 4, use_parallel: bool = False, ld_function: str = 'eddington', numerical_integration_method: str = 'trapz', use_cheby_integration: bool = False, cheby_order_multiplier: int = 4, cheby_blow_up_protection: bool = False, cheby_blow_up_factor: float = 1000, stationary_solving: bool = True, ad_path: str | None = None, nad_path: str | None = None, inlist_path: str | None = None, toml_use: bool = False, get_debug_info: bool = False, terms_cc_conj: tuple[bool, bool, bool] | bool | None = None, polytrope_comp: bool = False, analytic_polytrope: bool = False, polytrope_mass: float = 3, polytrope_radius: float = 4.5, save_name: str = '', view_term_by_term: bool=True, view_kernels: bool=True, progress_bars: bool=False, inlist_data: dict | None = None) -> None:
         # initialize the super-class
-        super().__init__(sys_args, called_from_pytest, pytest_path, rot_pct, use_complex, adiabatic, use_rotating_formalism, base_dir, alternative_directory_path, alternative_file_name, use_symbolic_profiles, use_brunt_def, nr_omp_threads, use_parallel, ld_function, numerical_integration_method, use_cheby_integration, cheby_order_multiplier, cheby_blow_up_protection, cheby_blow_up_factor, stationary_solving, ad_path, nad_path, inlist_path, toml_use, get_debug_info, terms_cc_conj, polytrope_comp, analytic_polytrope, polytrope_mass, polytrope_radius, progress_bars)
+        super().__init__(sys_args, called_from_pytest, pytest_path, rot_pct, use_complex, adiabatic, use_rotating_formalism, base_dir, alternative_directory_path, alternative_file_name, use_symbolic_profiles, use_brunt_def, nr_omp_threads, use_parallel, ld_function, numerical_integration_method, use_cheby_integration, cheby_order_multiplier, cheby_blow_up_protection, cheby_blow_up_factor, stationary_solving, ad_path, nad_path, inlist_path, toml_use, get_debug_info, terms_cc_conj, polytrope_comp, analytic_polytrope, polytrope_mass, polytrope_radius, progress_bars, inlist_data)
         # store the coefficient profile selection data dict
         self._cc_profile_selection_dict = cc_profile_selection_dict
                 # initialize the lists that will hold the necessary information
diff --git a/aesolver/aesolver/solver/solver_base_classes/quadratic_solver.py b/aesolver/aesolver/solver/solver_base_classes/quadratic_solver.py
index f3a8aad..626ceb8 100644
--- a/aesolver/aesolver/solver/solver_base_classes/quadratic_solver.py
+++ b/aesolver/aesolver/solver/solver_base_classes/quadratic_solver.py
@@ -178,6 +178,7 @@ class QuadraticAESolver:
         polytrope_mass: float = 3.0,
         polytrope_radius: float = 4.5,
         progress_bars: bool = False,
+        inlist_data: dict | None = None,
     ) -> None:
         # store information for numerical computations
         self._nr_omp_threads = nr_omp_threads
@@ -235,6 +236,7 @@ class QuadraticAESolver:
             alternative_file_name=alternative_file_name,
             toml_use=toml_use,
             inlist_path=inlist_path,
+            inlist_data=inlist_data,
             called_from_pytest=called_from_pytest,
             pytest_file_path=pytest_path,
         )
diff --git a/util-tools/generic_parser/generic_parser.py b/util-tools/generic_parser/generic_parser.py
index 4b85011..b0fef2c 100644
--- a/util-tools/generic_parser/generic_parser.py
+++ b/util-tools/generic_parser/generic_parser.py
@@ -93,6 +93,17 @@ class GenericParser:
         """
         return self._args.inlist_name
 
+    @property
+    def inlist_data(self):
+        """Returns the data that were read from the used/selected inlist.
+
+        Returns
+        -------
+        dict
+            The data read from the used/selected inlist.
+        """
+        return self._data_read_dictionary
+
     def _initialize_path_info(
         self,
         base_directory_name: str,
-- 
2.43.0


From 50c0434e443e93ec89be3e07749a39fb5d287075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:30 +0000
Subject: [PATCH 22/23] fix: refuse mode files whose frequency units cannot be
 converted

Frequencies in units such as ACOUSTIC_DELTA or CRITICAL were silently taken
for dimensionless ones, and results computed from them were stored.
---
 .../enumeration_freq_converter_normalization.py             | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/aesolver/aesolver/frequency_handling/enumeration_files/enumeration_freq_converter_normalization.py b/aesolver/aesolver/frequency_handling/enumeration_files/enumeration_freq_converter_normalization.py
index a438b76..003f1d8 100644
--- a/aesolver/aesolver/frequency_handling/enumeration_files/enumeration_freq_converter_normalization.py
+++ b/aesolver/aesolver/frequency_handling/enumeration_files/enumeration_freq_converter_normalization.py
@@ -255,6 +255,12 @@ class EnumerationGYREFreqConverter(Enum):
             # error was not returned: cannot raise --> output OK
             return factor_func
         except KeyError:
+            # units that cannot be converted are not dimensionless omegas
+            if _unit_string != b'NONE':
+                logger.exception(
+                    f'Frequencies in units {_unit_string!r} cannot be converted. Now exiting.'
+                )
+                sys.exit(1)
             # handle cases where output is not OK --> b'NONE' (i.e. dimensionless omegas!!!)
             # - retrieve dimensioning factors
             _G = my_mode_dict['G']
-- 
2.43.0


From 2e3926bec28f76160c4851e0c1b2d30122664bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:30 +0000
Subject: [PATCH 23/23] fix: log numerical derivatives of complex-valued arrays

The message referred to a name that only the branch for real-valued arrays
sets, so that a run for polytropes without symbolic profiles failed.
---
 .../super_coupling_coefficients.py                        | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aesolver/aesolver/coupling_coefficients/coefficient_support_classes/super_coupling_coefficients.py b/aesolver/aesolver/coupling_coefficients/coefficient_support_classes/super_coupling_coefficients.py
index 33e4a21..cc94642 100644
--- a/aesolver/aesolver/coupling_coefficients/coefficient_support_classes/super_coupling_coefficients.py
+++ b/aesolver/aesolver/coupling_coefficients/coefficient_support_classes/super_coupling_coefficients.py
@@ -1386,7 +1386,7 @@ class SuperCouplingCoefficient:
                 x=x,
                 y=y.real,
                 kwargs_diff=kwargs_diff,
-                print_statement=False,
+                print_statement=print_statement,
             )
             # check if you want to compute complex derivatives
             if self._use_complex:
@@ -1418,14 +1418,14 @@ class SuperCouplingCoefficient:
                 num_der_list, _num_der_string = differentiator.differentiate(
                     x, y, **kwargs_diff
                 )
+            # log information if necessary (i.e. if verbose printing is enabled, and the logical "print_statement" input variable is True)
+            if print_statement:
+                logger.debug(_num_der_string)
         else:
             logger.error(
                 'Numerical derivation not implemented for other data types! Now exiting.'
             )
             sys.exit()
-        # log information if necessary (i.e. if verbose printing is enabled, and the logical "print_statement" input variable is True)
-        if print_statement:
-            logger.debug(_num_der_string)  # type: ignore
         # return the list containing numerical derivatives
         return num_der_list
 
-- 
2.43.0

