From dcbeecc741576279d803abc6857d8a1ab9fe4450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:23 +0000
Subject: [PATCH 01/18] fix: do not compare blank optional cells with numbers

A non compulsory cell which can't be converted is blanked, and then compared
with a number by its check: a TypeError on Python 3.
---
 mtoolkit/eqcatalog.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/mtoolkit/eqcatalog.py b/mtoolkit/eqcatalog.py
index 723bf19..142d217 100644
--- a/mtoolkit/eqcatalog.py
+++ b/mtoolkit/eqcatalog.py
@@ -212,7 +212,9 @@ class EqEntryReader(object):
 
         if field in self.compulsory_fields:
             return eq_entry[field] > 0
-        if eq_entry[field] < 0:
+        if eq_entry[field] == EqEntryReader.EMPTY_STRING or \
+            eq_entry[field] < 0:
+
             eq_entry[field] = EqEntryReader.EMPTY_STRING
         return True
 
@@ -260,7 +262,9 @@ class EqEntryReader(object):
         of the value in the eq_entry.
         """
 
-        if not 0 <= eq_entry[field] <= 59:
+        if eq_entry[field] == EqEntryReader.EMPTY_STRING or \
+            not 0 <= eq_entry[field] <= 59:
+
             eq_entry[field] = EqEntryReader.EMPTY_STRING
         return True
 
@@ -287,7 +291,8 @@ class EqEntryReader(object):
         (i.e. ErrorStrike, SemiMinor90, SemiMajor90).
         """
 
-        if not 0 <= eq_entry[field] <= 360 or \
+        if eq_entry[field] == EqEntryReader.EMPTY_STRING or \
+            not 0 <= eq_entry[field] <= 360 or \
             eq_entry['SemiMinor90'] == EqEntryReader.EMPTY_STRING or \
             eq_entry['SemiMajor90'] == EqEntryReader.EMPTY_STRING or \
             not (eq_entry['SemiMinor90'] <= eq_entry['SemiMajor90']):
-- 
2.43.0


From aeb5601de7fee3590593d12fd2f0a25815bd6430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:23 +0000
Subject: [PATCH 02/18] fix: report the line number of an unreadable compulsory
 float

EqEntryValidationError was built without its third argument, so the user got
a TypeError instead of the validation error.
---
 mtoolkit/eqcatalog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mtoolkit/eqcatalog.py b/mtoolkit/eqcatalog.py
index 142d217..70dfa14 100644
--- a/mtoolkit/eqcatalog.py
+++ b/mtoolkit/eqcatalog.py
@@ -189,7 +189,7 @@ class EqEntryReader(object):
                 except ValueError:
                     if key in self.compulsory_fields:
                         raise EqEntryValidationError(key,
-                            dict_fields_values[key])
+                            dict_fields_values[key], self.current_line)
                     else:
                         dict_fields_values[key] = EqEntryReader.EMPTY_STRING
 
-- 
2.43.0


From c7e1469ca10ac5433bd458021a71dc3890a17af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:23 +0000
Subject: [PATCH 03/18] fix: reject days below one in February

---
 mtoolkit/eqcatalog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mtoolkit/eqcatalog.py b/mtoolkit/eqcatalog.py
index 70dfa14..fb50b7f 100644
--- a/mtoolkit/eqcatalog.py
+++ b/mtoolkit/eqcatalog.py
@@ -237,7 +237,7 @@ class EqEntryReader(object):
         Return a bool stating if check is passed.
         """
 
-        return (eq_entry['month'] == 2 and eq_entry[field] <= 29)\
+        return (eq_entry['month'] == 2 and 1 <= eq_entry[field] <= 29)\
             or (eq_entry['month'] != 2 and 1 <= eq_entry[field] <= 31)
 
     def check_hour(self, field, eq_entry):
-- 
2.43.0


From 9dc2175687e70e3e17c4ef9b239ae341bb53d3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:23 +0000
Subject: [PATCH 04/18] fix: keep seconds between 59 and 60

The seconds are decimal (e.g. 59.7), they were blanked above 59.
---
 mtoolkit/eqcatalog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mtoolkit/eqcatalog.py b/mtoolkit/eqcatalog.py
index fb50b7f..2a13fe1 100644
--- a/mtoolkit/eqcatalog.py
+++ b/mtoolkit/eqcatalog.py
@@ -263,7 +263,7 @@ class EqEntryReader(object):
         """
 
         if eq_entry[field] == EqEntryReader.EMPTY_STRING or \
-            not 0 <= eq_entry[field] <= 59:
+            not 0 <= eq_entry[field] < 60:
 
             eq_entry[field] = EqEntryReader.EMPTY_STRING
         return True
-- 
2.43.0


From 0d8a379bbb83f143a4ff6d8b4888ea1139a0ac62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:23 +0000
Subject: [PATCH 05/18] fix: write the nrml document in binary mode

lxml writes encoded bytes.
---
 nrml/writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nrml/writer.py b/nrml/writer.py
index d793fdc..98c3a48 100644
--- a/nrml/writer.py
+++ b/nrml/writer.py
@@ -59,7 +59,7 @@ class AreaSourceWriter(object):
         root_elem = _write_body(root_elem, area_sources)
 
         tree = etree.ElementTree(root_elem)
-        tree.write(open(self.filename, 'w'),
+        tree.write(open(self.filename, 'wb'),
             xml_declaration=True, encoding='utf-8',
             pretty_print=True)
 
-- 
2.43.0


From b9fa77cadee052579768df2c96a0b8040caf74d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:23 +0000
Subject: [PATCH 06/18] fix: accept result files in the current directory

A file name without a directory was rejected as an invalid directory.
---
 mtoolkit/eqcatalog.py | 2 +-
 nrml/writer.py        | 5 ++---
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/mtoolkit/eqcatalog.py b/mtoolkit/eqcatalog.py
index 2a13fe1..5fbcd59 100644
--- a/mtoolkit/eqcatalog.py
+++ b/mtoolkit/eqcatalog.py
@@ -341,7 +341,7 @@ class EqEntryWriter(object):
     """
 
     def __init__(self, output_filename):
-        output_dir = os.path.dirname(output_filename)
+        output_dir = os.path.dirname(os.path.abspath(output_filename))
         if not os.path.exists(output_dir):
             raise IOError('Invalid dir: %s' % output_dir)
         self.output_filename = output_filename
diff --git a/nrml/writer.py b/nrml/writer.py
index 98c3a48..2c172fe 100644
--- a/nrml/writer.py
+++ b/nrml/writer.py
@@ -42,10 +42,9 @@ class AreaSourceWriter(object):
         :type filename: string
         """
 
-        dirname = os.path.dirname(filename)
+        dirname = os.path.dirname(os.path.abspath(filename))
         if not os.path.exists(dirname):
-            raise IOError('Dir %s not found' %
-                (os.path.abspath(dirname), ))
+            raise IOError('Dir %s not found' % (dirname, ))
         self.filename = filename
 
     def serialize(self, area_sources):
-- 
2.43.0


From 8d97b12a0b77e625df781fc36c341a3c7f3407ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:23 +0000
Subject: [PATCH 07/18] fix: use the distance column as a one dimensional mask

haversine returns a (n, 1) array, numpy refuses to assign it through a one
dimensional boolean mask.
---
 mtoolkit/scientific/declustering.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mtoolkit/scientific/declustering.py b/mtoolkit/scientific/declustering.py
index 3f0983a..91981e2 100644
--- a/mtoolkit/scientific/declustering.py
+++ b/mtoolkit/scientific/declustering.py
@@ -206,7 +206,8 @@ def gardner_knopoff_decluster(
             # window
             vsel1 = haversine(
                 catalog_matrix[vsel, 3], catalog_matrix[vsel, 4],
-                catalog_matrix[i, 3], catalog_matrix[i, 4]) <= sw_space[i]
+                catalog_matrix[i, 3], catalog_matrix[i, 4])
+            vsel1 = vsel1[:, 0] <= sw_space[i]
             vsel[vsel] = vsel1
             temp_vsel = np.copy(vsel)
             temp_vsel[i] = False
-- 
2.43.0


From 6a179afc3857ca75ad8c003a86090a14ff430fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:23 +0000
Subject: [PATCH 08/18] fix: gardner_knopoff must not steal events of other
 clusters

The third argument of np.logical_and is the output array, not a third
operand: events already allocated to a cluster (main shocks included) were
moved to the cluster of a smaller event.
---
 mtoolkit/scientific/declustering.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mtoolkit/scientific/declustering.py b/mtoolkit/scientific/declustering.py
index 91981e2..61cc68d 100644
--- a/mtoolkit/scientific/declustering.py
+++ b/mtoolkit/scientific/declustering.py
@@ -200,8 +200,9 @@ def gardner_knopoff_decluster(
             # Find Events inside both fore- and aftershock time windows
             dt = year_dec - year_dec[i]
             vsel = np.logical_and(dt >= (-sw_time[i] * fs_time_prop),
-                                              dt <= sw_time[i],
-                                              flagvector == 0)
+                                              dt <= sw_time[i])
+            # Leave out events already allocated to a cluster
+            vsel = np.logical_and(vsel, vcl == 0)
             # Of those events inside time window, find those inside distance
             # window
             vsel1 = haversine(
-- 
2.43.0


From ce996af58cce5c1bbd40c4a082881160a3f62d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:23 +0000
Subject: [PATCH 09/18] fix: afteran must not take a larger event as aftershock

A larger event, not allocated to a cluster, inside the distance window was
put in place of the main shock at the head of the selection.
---
 mtoolkit/scientific/declustering.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mtoolkit/scientific/declustering.py b/mtoolkit/scientific/declustering.py
index 61cc68d..62ea731 100644
--- a/mtoolkit/scientific/declustering.py
+++ b/mtoolkit/scientific/declustering.py
@@ -359,6 +359,9 @@ def afteran_decluster(
 
             # Select earthquakes inside distance window and not in cluster
             vsel = np.logical_and(mdist <= sw_space[i], vcl == 0).flatten()
+            # Larger events can't belong to the cluster of this one, so that
+            # the main shock is always the first of the selected events
+            vsel[:i] = False
             dtime = year_dec[vsel] - year_dec[i]
 
             nval = np.shape(dtime)[0]  # Number of events inside valid window
-- 
2.43.0


From 42ac23690c98df8a7cadb7297fba1ae766ff04ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:23 +0000
Subject: [PATCH 10/18] fix: afteran skipped the event which follows an
 aftershock

The index was incremented twice while searching for foreshocks.
---
 mtoolkit/scientific/declustering.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/mtoolkit/scientific/declustering.py b/mtoolkit/scientific/declustering.py
index 62ea731..895b97f 100644
--- a/mtoolkit/scientific/declustering.py
+++ b/mtoolkit/scientific/declustering.py
@@ -285,10 +285,8 @@ def _find_foreshocks(dtime, nval, time_window, vsel_aftershocks):
     initval = dtime[0]
 
     while j < nval:
-        if vsel_aftershocks[j]:
         # Event already allocated as an aftershock - skip
-            j += 1
-        else:
+        if not vsel_aftershocks[j]:
             ddt = dtime[j] - initval
             # Is event before previous event and within time window?
             vsel[j] = np.logical_and(ddt <= 0.0,
-- 
2.43.0


From 7cd2a2783d94929c348682feb32a6c7e44019d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:23 +0000
Subject: [PATCH 11/18] fix: recurrence does not need the removed alias
 np.float

---
 mtoolkit/scientific/recurrence.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mtoolkit/scientific/recurrence.py b/mtoolkit/scientific/recurrence.py
index af60234..609ecb4 100644
--- a/mtoolkit/scientific/recurrence.py
+++ b/mtoolkit/scientific/recurrence.py
@@ -205,15 +205,15 @@ def b_maxlike_time(year, mag, ctime, cmag, dmag, ref_mag=0.0):
         # differences.
         id1 = np.logical_and(year >= ctime[ival],
                     mag >= (m_c - mag_eq_tolerance))
-        nyr = np.float(np.max(year[id1]) - np.min(year[id1]) + 1)
+        nyr = float(np.max(year[id1]) - np.min(year[id1]) + 1)
 
         # Get a- and b- value for the selected events
         temp_rec_table = recurrence_table(mag[id1], dmag, year[id1])
         bval, sigma_b = b_max_likelihood(temp_rec_table[:, 0],
                                          temp_rec_table[:, 1], dmag, m_c)
 
-        aval = np.log10(np.float(np.sum(id1)) / nyr) + bval * m_c
-        sigma_a = np.abs(np.log10(np.float(np.sum(id1)) / nyr) +
+        aval = np.log10(float(np.sum(id1)) / nyr) + bval * m_c
+        sigma_a = np.abs(np.log10(float(np.sum(id1)) / nyr) +
             (bval + sigma_b) * ref_mag - aval)
 
         # Calculate reference rate
-- 
2.43.0


From 020ea19c31d468a35782f17c1c6355cdf0b9c466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:23 +0000
Subject: [PATCH 12/18] fix: maximum_magnitude does not need the removed alias
 np.float

np.zeros and np.ones need an integer size.
---
 mtoolkit/scientific/maximum_magnitude.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mtoolkit/scientific/maximum_magnitude.py b/mtoolkit/scientific/maximum_magnitude.py
index ea5f84f..62bb6ea 100755
--- a/mtoolkit/scientific/maximum_magnitude.py
+++ b/mtoolkit/scientific/maximum_magnitude.py
@@ -57,7 +57,7 @@ def h_smooth(mag):
     :rtype hfact: Float
     """
 
-    neq = np.float(np.shape(mag)[0])
+    neq = float(np.shape(mag)[0])
 
     # Calculate inter-quartile range
     qtiles = mquantiles(mag, prob=[0.25, 0.75])
@@ -204,12 +204,12 @@ def kijko_nonparametric_gauss(mag, mag_sig, neq,
     # Find number_eqs largest events
     if np.shape(mag)[0] <= neq:
         # Catalogue smaller than number of required events
-        neq = np.float(np.shape(mag)[0])
+        neq = float(np.shape(mag)[0])
     else:
         # Select number_eqs largest events
         mag = np.sort(mag, kind='quicksort')
         mag = mag[-neq:]
-        neq = np.float(neq)
+        neq = float(neq)
 
     mmin = np.min(mag)
     # Get smoothing factor
@@ -252,7 +252,7 @@ def cumulative_moment(year, mag):
     # Calculate seismic moment
     m_o = 10. ** (9.05 + 1.5 * mag)
     year_range = np.arange(np.min(year), np.max(year) + 1, 1)
-    nyr = np.float(np.shape(year_range)[0])
+    nyr = np.shape(year_range)[0]
     morate = np.zeros(nyr, dtype=float)
     # Get moment release per year
     for loc, tyr in enumerate(year_range):
-- 
2.43.0


From 8e85ba1b0a0d12ae9b786561f1af4171af02783d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:23 +0000
Subject: [PATCH 13/18] fix: greg2julian between March and August of years as
 1900

The formula needs the truncated value of (month - 9) / 7, a fractional one
counts a century too early.
---
 mtoolkit/scientific/catalogue_utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mtoolkit/scientific/catalogue_utilities.py b/mtoolkit/scientific/catalogue_utilities.py
index f9e1bfb..240bceb 100644
--- a/mtoolkit/scientific/catalogue_utilities.py
+++ b/mtoolkit/scientific/catalogue_utilities.py
@@ -111,7 +111,7 @@ def greg2julian(year, month, day, hour, minute, second):
     timeut = hour + (minute / 60.0) + (second / 3600.0)
     jd = (367.0 * year) - np.floor(7.0 * (year +
              np.floor((month + 9.0) / 12.0)) / 4.0) - np.floor(3.0 *
-             (np.floor((year + (month - 9.0) / 7.0) / 100.0) + 1.0) /
+             (np.floor((year + np.trunc((month - 9.0) / 7.0)) / 100.0) + 1.0) /
              4.0) + np.floor((275.0 * month) / 9.0) + day +\
              1721028.5 + (timeut / 24.0)
     return jd
-- 
2.43.0


From 0d7fbb9a0fc726bc3888a2edf8037f86c82dffdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:23 +0000
Subject: [PATCH 14/18] fix: read_source_model on a model without area sources

The definitions in the context were left to None.
---
 mtoolkit/jobs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mtoolkit/jobs.py b/mtoolkit/jobs.py
index 40af0ad..ff53c8f 100644
--- a/mtoolkit/jobs.py
+++ b/mtoolkit/jobs.py
@@ -86,7 +86,7 @@ def read_source_model(context):
     for sm in reader.read():
         sm_definitions.append(sm)
 
-        context.sm_definitions = sm_definitions
+    context.sm_definitions = sm_definitions
 
     LOGGER.debug("* Eq number source models: %s" % len(context.sm_definitions))
 
-- 
2.43.0


From 1c970410a50b8483199353f2e8d14592a6b0433e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:18 +0000
Subject: [PATCH 15/18] fix: h_smooth compared the function np.std with a
 number

The function object never was the minimum on Python 2 (the inter-quartile
range was always used) and is a TypeError on Python 3. The result is the one
the QA tests pin.
---
 mtoolkit/scientific/maximum_magnitude.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mtoolkit/scientific/maximum_magnitude.py b/mtoolkit/scientific/maximum_magnitude.py
index 62bb6ea..2964e4e 100755
--- a/mtoolkit/scientific/maximum_magnitude.py
+++ b/mtoolkit/scientific/maximum_magnitude.py
@@ -62,7 +62,7 @@ def h_smooth(mag):
     # Calculate inter-quartile range
     qtiles = mquantiles(mag, prob=[0.25, 0.75])
     iqr = qtiles[1] - qtiles[0]
-    hfact = 0.9 * np.min([np.std, iqr / 1.34]) * (neq ** (-1. / 5.))
+    hfact = 0.9 * (iqr / 1.34) * (neq ** (-1. / 5.))
     # Round h to 2 dp
     hfact = np.round(100. * hfact) / 100.
     return hfact
-- 
2.43.0


From 86b4d034a2415a04b50dfaf8afb258827bea7c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:18 +0000
Subject: [PATCH 16/18] fix: skip the source models without events

A single zone without events stopped the whole workflow with an IndexError.
---
 mtoolkit/jobs.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/mtoolkit/jobs.py b/mtoolkit/jobs.py
index ff53c8f..e0be7a3 100644
--- a/mtoolkit/jobs.py
+++ b/mtoolkit/jobs.py
@@ -306,6 +306,10 @@ def recurrence(context):
         in a pipeline
     """
 
+    if len(context.current_filtered_eq) == 0:
+        LOGGER.warning("* No events inside the zone, recurrence not applied")
+        return
+
     bval, sigb, a_m, siga_m = context.map_sc['recurrence'](
             context.current_filtered_eq[:,
                 CATALOG_COMPLETENESS_MATRIX_YEAR_INDEX],
@@ -341,6 +345,12 @@ def maximum_magnitude(context):
     :param context: shared datastore across different jobs
         in a pipeline
     """
+
+    if len(context.current_filtered_eq) == 0:
+        LOGGER.warning(
+            "* No events inside the zone, maximum magnitude not applied")
+        return
+
     max_mag, max_mag_sigma = context.map_sc['maximum_magnitude'](
         context.current_filtered_eq[:,
             CATALOG_COMPLETENESS_MATRIX_YEAR_INDEX],
-- 
2.43.0


From de70c42c8cec1b7c26177a65f82372a7200bfe2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:18 +0000
Subject: [PATCH 17/18] fix: accept weights which sum to one up to rounding

Ten weights of 0.1 were rejected, as their floating point sum is not 1.0.
---
 mtoolkit/geo/tectonic_region.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mtoolkit/geo/tectonic_region.py b/mtoolkit/geo/tectonic_region.py
index 1420c1f..9a158ab 100644
--- a/mtoolkit/geo/tectonic_region.py
+++ b/mtoolkit/geo/tectonic_region.py
@@ -25,6 +25,7 @@ DEFAULT_DLR = {'value': [1.25E-5], 'weight': [1.0]}
 VOL_STCON_SMOD = {'value': [29.0], 'weight': [1.0]}
 SUBD_SMOD = {'value': [49.0], 'weight': [1.0]}
 SUPPORTED_MSR = ('Peer', 'WC1994')
+WEIGHT_TOLERANCE = 1.0E-9
 
 
 class TectonicRegion(object):
@@ -148,13 +149,13 @@ class TectonicRegion(object):
         sum_weights_smod = reduce(lambda x, y: x + y, smod)
         sum_weights_dlr = reduce(lambda x, y: x + y, dlr)
 
-        if sum_weights_msr != 1.0:
+        if abs(sum_weights_msr - 1.0) > WEIGHT_TOLERANCE:
             raise ValueError('The sum of weights for magnitude scaling'
                             ' relations should be one')
-        if sum_weights_smod != 1.0:
+        if abs(sum_weights_smod - 1.0) > WEIGHT_TOLERANCE:
             raise ValueError('The sum of weights for shear modulus'
                            ' should be one')
-        if sum_weights_dlr != 1.0:
+        if abs(sum_weights_dlr - 1.0) > WEIGHT_TOLERANCE:
             raise ValueError('The sum of weights for displacement length ratio'
                             ' should be one')
 
-- 
2.43.0


From 789b0cfb198af53144c09146a1dc50b51e027833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:22 +0000
Subject: [PATCH 18/18] fix: Stepp: a departure of the slope at the first step
 is not ignored

---
 mtoolkit/scientific/completeness.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mtoolkit/scientific/completeness.py b/mtoolkit/scientific/completeness.py
index afd3adf..977cc09 100644
--- a/mtoolkit/scientific/completeness.py
+++ b/mtoolkit/scientific/completeness.py
@@ -108,7 +108,7 @@ def stepp_analysis(year, mw, dm=0.1, dt=1, ttol=0.2, iloc=True):
         resid1 = grad1 - time_diff
         test1 = np.abs(resid1[1:] - resid1[:-1])
         tloct = np.nonzero(test1 > ttol)[0]
-        if not(np.any(tloct)):
+        if len(tloct) == 0:
             tloct = -1
         else:
             tloct = tloct[-1]
-- 
2.43.0

