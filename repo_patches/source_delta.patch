From 4def3c63f71038364375f0c8f4aed232b73a5655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:46 +0000
Subject: [PATCH 01/21] fix: write missing scores so that an exported dataset
 file can be loaded again

---
 sureal/dataset_reader.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/sureal/dataset_reader.py b/sureal/dataset_reader.py
index 84ffac6..0a38c95 100644
--- a/sureal/dataset_reader.py
+++ b/sureal/dataset_reader.py
@@ -12,6 +12,18 @@ __copyright__ = "Copyright 2016-2018, Netflix, Inc."
 __license__ = "Apache, Version 2.0"
 
 
+class _DatasetPrettyPrinter(pprint.PrettyPrinter):
+    """
+    Pretty printer whose output can be read back as Python source, also for NaN
+    and infinite values (e.g. missing scores).
+    """
+
+    def format(self, object, context, maxlevels, level):
+        if isinstance(object, float) and not np.isfinite(object):
+            return "float('{}')".format(object), True, False
+        return super().format(object, context, maxlevels, level)
+
+
 class DatasetReader(object):
 
     def __init__(self, dataset, **kwargs):
@@ -97,10 +109,11 @@ class DatasetReader(object):
                     output_file.write('{} = '.format(key) + repr(
                         dataset.__dict__[key]) + '\n')
             output_file.write('\n')
-            output_file.write('ref_videos = ' + pprint.pformat(
+            pp = _DatasetPrettyPrinter()
+            output_file.write('ref_videos = ' + pp.pformat(
                 dataset.ref_videos) + '\n')
             output_file.write('\n')
-            output_file.write('dis_videos = ' + pprint.pformat(
+            output_file.write('dis_videos = ' + pp.pformat(
                 dataset.dis_videos) + '\n')
             if 'subjects' in dataset.__dict__.keys():
                 output_file.write('\n')
-- 
2.43.0


From 16e3521a7303a0fa30d13ae0e3419569583005e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:46 +0000
Subject: [PATCH 02/21] fix: per-subject export of dictionary-style datasets
 with repeated votes

---
 sureal/dataset_reader.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/sureal/dataset_reader.py b/sureal/dataset_reader.py
index 0a38c95..98a39b6 100644
--- a/sureal/dataset_reader.py
+++ b/sureal/dataset_reader.py
@@ -312,8 +312,6 @@ class RawDatasetReader(DatasetReader):
 
     def to_persubject_dataset(self, quality_scores, **kwargs):
 
-        import math
-
         newone = self._prepare_new_dataset(kwargs)
 
         # ref_videos: deepcopy
@@ -330,7 +328,7 @@ class RawDatasetReader(DatasetReader):
             # new style: opinion is specified as a dict: user -> score. In this
             # case, quality_score may contain nan. In this case: filter them out
             if isinstance(dis_video['os'], dict):
-                quality_score = list(filter(lambda x: not math.isnan(x), quality_score))
+                quality_score = list(filter(lambda x: not np.all(np.isnan(x)), quality_score))
 
             assert len(dis_video['os']) == len(quality_score)
 
-- 
2.43.0


From bb040b2c90d6a49dceb7bd1bd87fad91c4b0c2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:46 +0000
Subject: [PATCH 03/21] fix: conversion to paired comparison must not alter the
 source dataset

---
 sureal/dataset_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sureal/dataset_reader.py b/sureal/dataset_reader.py
index 98a39b6..3cb9cf7 100644
--- a/sureal/dataset_reader.py
+++ b/sureal/dataset_reader.py
@@ -407,7 +407,7 @@ class RawDatasetReader(DatasetReader):
             for mean_score_ in per_asset_mean_scores:
                 assert np.isscalar(mean_score_)
 
-        dis_videos = self.dis_videos
+        dis_videos = copy.deepcopy(self.dis_videos)
         if isinstance(dis_videos[0]['os'], dict):
             pass
         elif isinstance(dis_videos[0]['os'], (list, tuple)):
-- 
2.43.0


From 6189fa1252db58120bd6de23eb9277e756a5bfc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:46 +0000
Subject: [PATCH 04/21] fix: per-asset rates of the paired-comparison
 conversion belong to the asset, not to its rank among the subject's votes

---
 sureal/dataset_reader.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sureal/dataset_reader.py b/sureal/dataset_reader.py
index 3cb9cf7..b94325a 100644
--- a/sureal/dataset_reader.py
+++ b/sureal/dataset_reader.py
@@ -461,7 +461,7 @@ class RawDatasetReader(DatasetReader):
                             true_sampling_rate = sampling_rate
                         elif per_asset_sampling_rates is not None:
                             # the true sampling rate of a pair is the mean of the sampling rate of the two assets:
-                            true_sampling_rate = (per_asset_sampling_rates[idx] + per_asset_sampling_rates[idx2]) / 2.0
+                            true_sampling_rate = (per_asset_sampling_rates[d_assetid_disvideoidx[assetid]] + per_asset_sampling_rates[d_assetid_disvideoidx[assetid2]]) / 2.0
                         else:
                             assert False
                     else:
@@ -483,7 +483,7 @@ class RawDatasetReader(DatasetReader):
                         if cointoss_rate is not None:
                             true_cointoss_rate = cointoss_rate
                         elif per_asset_cointoss_rates is not None:
-                            true_cointoss_rate = (per_asset_cointoss_rates[idx] + per_asset_cointoss_rates[idx2]) / 2.0
+                            true_cointoss_rate = (per_asset_cointoss_rates[d_assetid_disvideoidx[assetid]] + per_asset_cointoss_rates[d_assetid_disvideoidx[assetid2]]) / 2.0
                         else:
                             true_cointoss_rate = None
 
@@ -495,8 +495,8 @@ class RawDatasetReader(DatasetReader):
                         else:
 
                             if per_asset_mean_scores is not None:
-                                mscore = per_asset_mean_scores[assetid]
-                                mscore2 = per_asset_mean_scores[assetid2]
+                                mscore = per_asset_mean_scores[d_assetid_disvideoidx[assetid]]
+                                mscore2 = per_asset_mean_scores[d_assetid_disvideoidx[assetid2]]
                             else:
                                 mscore = d_subj_assetid[subj][assetid]['score']
                                 mscore2 = d_subj_assetid[subj][assetid2]['score']
@@ -505,8 +505,8 @@ class RawDatasetReader(DatasetReader):
                                 score = mscore + random.gauss(0, noise_level)
                                 score2 = mscore2 + random.gauss(0, noise_level)
                             elif per_asset_noise_levels is not None:
-                                score = mscore + random.gauss(0, per_asset_noise_levels[idx])
-                                score2 = mscore2 + random.gauss(0, per_asset_noise_levels[idx2])
+                                score = mscore + random.gauss(0, per_asset_noise_levels[d_assetid_disvideoidx[assetid]])
+                                score2 = mscore2 + random.gauss(0, per_asset_noise_levels[d_assetid_disvideoidx[assetid2]])
                             else:
                                 score = mscore
                                 score2 = mscore2
-- 
2.43.0


From a5252c8ccd848805f1b47dac7250aa29fa144da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:46 +0000
Subject: [PATCH 05/21] fix: combining datasets must not append votes to the
 first dataset, and must merge tuples of repeated votes

---
 sureal/dataset_reader.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sureal/dataset_reader.py b/sureal/dataset_reader.py
index b94325a..b4d9381 100644
--- a/sureal/dataset_reader.py
+++ b/sureal/dataset_reader.py
@@ -577,13 +577,13 @@ class RawDatasetReader(DatasetReader):
 
                     for key in vid2['os'].keys():
                         if key in vid1['os'].keys():  # the same subject is in both datasets
-                            if not isinstance(vid1['os'][key], list):
+                            if not isinstance(vid1['os'][key], (list, tuple)):
                                 new_os = [vid1['os'][key]]
                             else:
-                                new_os = vid1['os'][key]
+                                new_os = list(vid1['os'][key])
 
-                            if isinstance(vid2['os'][key], list):
-                                new_dis_video['os'][key] = new_os + vid2['os'][key]
+                            if isinstance(vid2['os'][key], (list, tuple)):
+                                new_dis_video['os'][key] = new_os + list(vid2['os'][key])
                             else:
                                 new_os.append(vid2['os'][key])
                                 new_dis_video['os'][key] = new_os
-- 
2.43.0


From 80d0c1df1a94c731074b8cff970a5ac2fe66769a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:46 +0000
Subject: [PATCH 06/21] fix: selected_dis_videos are indices, not asset ids

---
 sureal/dataset_reader.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/sureal/dataset_reader.py b/sureal/dataset_reader.py
index b4d9381..0a13922 100644
--- a/sureal/dataset_reader.py
+++ b/sureal/dataset_reader.py
@@ -839,10 +839,7 @@ class SelectDisVideoRawDatasetReader(MockedRawDatasetReader):
     @property
     @override(DatasetReader)
     def dis_videos(self):
-        d_assetid_disvideo = dict()  # build dict: asset_id -> dis_video
-        for dv in self.dataset.dis_videos:
-            d_assetid_disvideo[dv['asset_id']] = dv
-        return [d_assetid_disvideo[asset_id] for asset_id in self.input_dict['selected_dis_videos']]
+        return [self.dataset.dis_videos[idx] for idx in self.input_dict['selected_dis_videos']]
 
     def to_dataset(self):
         raise NotImplementedError
-- 
2.43.0


From c375dfaa8058338289b8cbf1427ce2a93cca1678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:46 +0000
Subject: [PATCH 07/21] fix: selecting subjects of a list-style dataset lost
 the votes of later subjects

---
 sureal/dataset_reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sureal/dataset_reader.py b/sureal/dataset_reader.py
index 0a13922..48e07cb 100644
--- a/sureal/dataset_reader.py
+++ b/sureal/dataset_reader.py
@@ -192,7 +192,7 @@ class RawDatasetReader(DatasetReader):
                     isinstance(self.dis_videos[0]['os'], tuple)
         ):
             for dis_video in self.dis_videos:
-                for idx_obs in range(self.num_observers):
+                for idx_obs in range(self._get_num_observers()):
                     scores = dis_video['os'][idx_obs]
                     if isinstance(scores, list) or isinstance(scores, tuple):
                         if len(scores) > max_reps:
@@ -227,7 +227,7 @@ class RawDatasetReader(DatasetReader):
         if isinstance(self.dis_videos[0]['os'], list) \
                 or isinstance(self.dis_videos[0]['os'], tuple):
             for i_dis_video, dis_video in enumerate(self.dis_videos):
-                for i_observer in range(self.num_observers):
+                for i_observer in range(self._get_num_observers()):
                     if isinstance(dis_video['os'][i_observer], list) or isinstance(dis_video['os'][i_observer], tuple):
                         reps = len(dis_video['os'][i_observer])
                     else:
-- 
2.43.0


From 0c1a4de7a7b401f772a151506b461d460ed30b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:42 +0000
Subject: [PATCH 08/21] fix: paired-comparison votes name asset ids, which need
 not follow the order of the videos

---
 sureal/dataset_reader.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sureal/dataset_reader.py b/sureal/dataset_reader.py
index 48e07cb..308444d 100644
--- a/sureal/dataset_reader.py
+++ b/sureal/dataset_reader.py
@@ -1035,14 +1035,20 @@ class PairedCompDatasetReader(RawDatasetReader):
         for i_observer, observer in enumerate(list_observers):
             dict_observer_to_iobserver[observer] = i_observer
 
+        # build dict: asset_id -> i_dis_video
+        dict_assetid_to_idisvideo = dict()
+        for i_dis_video, dis_video in enumerate(self.dis_videos):
+            dict_assetid_to_idisvideo[dis_video['asset_id']] = i_dis_video
+
         score_3darray = float("NaN") * np.ones([self.num_dis_videos, self.num_dis_videos, self.num_observers])
 
         for i_dis_video, dis_video in enumerate(self.dis_videos):
             for key, value in dis_video['os'].items():
                 assert value in [0, 0.5, 1], \
                     f"expect value in [0, 0.5, 1], but got: {value}"
-                subject, pvs_j = key
+                subject, asset_id_j = key
                 pvs_i = i_dis_video
+                pvs_j = dict_assetid_to_idisvideo[asset_id_j]
                 score_3darray[pvs_i][pvs_j][dict_observer_to_iobserver[subject]] = value  # CAUTION: note the dimension change!
                 score_3darray[pvs_j][pvs_i][dict_observer_to_iobserver[subject]] = 1.0 - value
 
-- 
2.43.0


From ac4cc0f3eb57979f564a29dfebe604579f302b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:42 +0000
Subject: [PATCH 09/21] fix: loading a dataset file must not overwrite an
 earlier loaded dataset of the same name

---
 sureal/tools/misc.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sureal/tools/misc.py b/sureal/tools/misc.py
index 42fa19a..03ff049 100644
--- a/sureal/tools/misc.py
+++ b/sureal/tools/misc.py
@@ -115,7 +115,10 @@ def import_python_file(filepath):
     filename = get_file_name_without_extension(filepath)
     try:
         from importlib.machinery import SourceFileLoader
-        ret = SourceFileLoader(filename, filepath).load_module()
+        from importlib.util import spec_from_loader, module_from_spec
+        # a fresh module each time: files of the same name must not share state
+        ret = module_from_spec(spec_from_loader(filename, SourceFileLoader(filename, filepath)))
+        ret.__spec__.loader.exec_module(ret)
     except ImportError:
         import imp
         ret = imp.load_source(filename, filepath)
-- 
2.43.0


From 3d862f9d39986993212baa16e42ba097da742eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:42 +0000
Subject: [PATCH 10/21] fix: density of a sum of two uniforms ignored the
 locations on its slopes

---
 sureal/tools/stats.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sureal/tools/stats.py b/sureal/tools/stats.py
index 15a45e4..e38d6d8 100644
--- a/sureal/tools/stats.py
+++ b/sureal/tools/stats.py
@@ -108,13 +108,13 @@ def convolution_of_two_uniforms(x, loc1, s1, loc2, s2):
     if - s/2. <= z < - d/2.:
         x0, y0 = - s / 2., 0
         x1, y1 = -d / 2., h
-        return (y1 - y0) / (x1 - x0) * (x - x0) + y0
+        return (y1 - y0) / (x1 - x0) * (z - x0) + y0
     elif -d/2. <= z < d/2.:
         return h
     elif d/2. <= z < s/2.:
         x0, y0 = s / 2., 0
         x1, y1 = d / 2., h
-        return (y1 - y0) / (x1 - x0) * (x - x0) + y0
+        return (y1 - y0) / (x1 - x0) * (z - x0) + y0
     else:
         return 0.
 
-- 
2.43.0


From 9b28e4e993ac61b6829fbe16e8a46aaf55a67d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:42 +0000
Subject: [PATCH 11/21] fix: persist_to_file raised TypeError on every call

---
 sureal/tools/decorator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sureal/tools/decorator.py b/sureal/tools/decorator.py
index d4f8c28..43f18cb 100644
--- a/sureal/tools/decorator.py
+++ b/sureal/tools/decorator.py
@@ -25,10 +25,11 @@ def persist_to_file(file_name):
                 sys.exit(1)
 
         def new_func(*args):
-            h = hashlib.sha1(str(original_func.__name__) + str(args)).hexdigest()
+            h = hashlib.sha1((str(original_func.__name__) + str(args)).encode('utf-8')).hexdigest()
             if h not in cache:
                 cache[h] = original_func(*args)
-                json.dump(cache, open(file_name, 'wt'))
+                with open(file_name, 'wt') as cache_file:
+                    json.dump(cache, cache_file)
             return cache[h]
 
         return new_func
-- 
2.43.0


From 8db570c1c37e7904f25014103fc39b6e30784273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:42 +0000
Subject: [PATCH 12/21] fix: memoized functions failed on unhashable arguments
 instead of not caching

---
 sureal/tools/decorator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sureal/tools/decorator.py b/sureal/tools/decorator.py
index 43f18cb..081fbbb 100644
--- a/sureal/tools/decorator.py
+++ b/sureal/tools/decorator.py
@@ -97,7 +97,9 @@ class memoized(object):
         self.cache = {}
 
     def __call__(self, *args):
-        if not hasattr(args, "__hash__"):
+        try:
+            hash(args)
+        except TypeError:  # unhashable arguments: do not cache
             return self.func(*args)
         if args in self.cache:
             return self.cache[args]
-- 
2.43.0


From 2bbed771e7cfcd1a05e76bb9594691b1791c609f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:36 +0000
Subject: [PATCH 13/21] fix: report the names of the selected subjects only

---
 sureal/dataset_reader.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sureal/dataset_reader.py b/sureal/dataset_reader.py
index 308444d..5da520c 100644
--- a/sureal/dataset_reader.py
+++ b/sureal/dataset_reader.py
@@ -805,7 +805,7 @@ class SelectSubjectRawDatasetReader(MockedRawDatasetReader):
         selected_subjects = self.input_dict['selected_subjects']
 
         # assert in 0, 1, 2...., num_observer -1
-        observer_idxs = range(super(SelectSubjectRawDatasetReader, self).num_observers)
+        observer_idxs = range(RawDatasetReader(self.dataset).num_observers)
         for subject in selected_subjects:
             assert subject in observer_idxs
 
@@ -813,6 +813,10 @@ class SelectSubjectRawDatasetReader(MockedRawDatasetReader):
     def num_observers(self):
         return len(self.input_dict['selected_subjects'])
 
+    def _get_list_observers(self):
+        list_observers = super()._get_list_observers()
+        return [list_observers[idx] for idx in self.input_dict['selected_subjects']]
+
     @property
     def opinion_score_3darray(self):
         """
@@ -820,7 +824,7 @@ class SelectSubjectRawDatasetReader(MockedRawDatasetReader):
         distorted videos, second dimension the number of observers, and third the maximum number of repetitions
         """
         selected_subjects = self.input_dict['selected_subjects']
-        score_mtx = super().opinion_score_3darray
+        score_mtx = RawDatasetReader(self.dataset).opinion_score_3darray
         score_mtx = score_mtx[:, selected_subjects, :]
         return score_mtx
 
-- 
2.43.0


From 7e0becfd053779ba5e9395c62d6976b3c9b55ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:36 +0000
Subject: [PATCH 14/21] fix: datasets of simulated readers could not be read
 back with repeated votes

---
 sureal/dataset_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sureal/dataset_reader.py b/sureal/dataset_reader.py
index 5da520c..4886b38 100644
--- a/sureal/dataset_reader.py
+++ b/sureal/dataset_reader.py
@@ -653,7 +653,7 @@ class MockedRawDatasetReader(RawDatasetReader):
         num_videos, num_subjects, max_repetitions = score_mtx.shape
         assert num_videos == len(newone.dis_videos)
         for scores, dis_video in zip(score_mtx, newone.dis_videos):
-            dis_video['os'] = list(scores)
+            dis_video['os'] = [list(subject_scores) for subject_scores in scores]
 
         return newone
 
-- 
2.43.0


From 3c0bb4755721bf4f58a0a92e4dd2c38bd85bd8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:26 +0000
Subject: [PATCH 15/21] fix: a missing vote was converted into tied paired
 comparisons

---
 sureal/dataset_reader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sureal/dataset_reader.py b/sureal/dataset_reader.py
index 4886b38..01470e8 100644
--- a/sureal/dataset_reader.py
+++ b/sureal/dataset_reader.py
@@ -422,6 +422,8 @@ class RawDatasetReader(DatasetReader):
         d_subj_assetid = dict()
         for dis_video in dis_videos:
             for subj in dis_video['os']:
+                if np.isscalar(dis_video['os'][subj]) and np.isnan(dis_video['os'][subj]):
+                    continue  # missing vote: nothing to compare
                 if subj not in d_subj_assetid:
                     d_subj_assetid[subj] = dict()
                 assert dis_video['asset_id'] not in d_subj_assetid[subj] # assuming no repetition for single subject and a dis_video
-- 
2.43.0


From 3534cf84faa4195b77e210ff9425f6661b4d2a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:08 +0000
Subject: [PATCH 16/21] fix: a combined dataset shared lists of votes with the
 second dataset

---
 sureal/dataset_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sureal/dataset_reader.py b/sureal/dataset_reader.py
index 01470e8..5392039 100644
--- a/sureal/dataset_reader.py
+++ b/sureal/dataset_reader.py
@@ -575,7 +575,7 @@ class RawDatasetReader(DatasetReader):
                     new_dis_video = copy.deepcopy(vid1)
                     new_dis_video['content_id'] = new_content_id
 
-                    new_dis_video['os'].update(vid2['os'])  # combined the 'os's but overrode when subject is in both
+                    new_dis_video['os'].update(copy.deepcopy(vid2['os']))  # combined the 'os's but overrode when subject is in both
 
                     for key in vid2['os'].keys():
                         if key in vid1['os'].keys():  # the same subject is in both datasets
-- 
2.43.0


From bd47df4c8a98fe80d0c15e49fd55b3da8fbe134c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:56:36 +0000
Subject: [PATCH 17/21] fix: output of a model without standard deviations
 (BT_NR) could not be formatted

---
 sureal/routine.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sureal/routine.py b/sureal/routine.py
index 745df44..7b19b9a 100644
--- a/sureal/routine.py
+++ b/sureal/routine.py
@@ -613,7 +613,7 @@ def format_output_of_run_subjective_models(dataset, subjective_models, results):
         assert 'quality_scores' in result
         assert 'dis_video_names' in result
         assert len(result['dis_video_names']) == len(result['quality_scores'])
-        if 'quality_scores_std' in result:
+        if 'quality_scores_std' in result and result['quality_scores_std'] is not None:
             assert len(result['quality_scores']) == len(result['quality_scores_std'])
         if 'quality_scores_ci95' in result:
             assert len(result['quality_scores_ci95']) == 2
@@ -663,7 +663,7 @@ def format_output_of_run_subjective_models(dataset, subjective_models, results):
                 output.setdefault('dis_videos', dict()).setdefault(idx, dict())['dis_video_name'] = dis_video_name
         for idx, quality_score in enumerate(result['quality_scores']):
             output.setdefault('dis_videos', dict()).setdefault(idx, dict()).setdefault('models', dict()).setdefault(subjective_model.TYPE, dict())['quality_score'] = quality_score
-        if 'quality_scores_std' in result:
+        if 'quality_scores_std' in result and result['quality_scores_std'] is not None:
             for idx, quality_score_std in enumerate(result['quality_scores_std']):
                 output.setdefault('dis_videos', dict()).setdefault(idx, dict()).setdefault('models', dict()).setdefault(subjective_model.TYPE, dict())['quality_score_std'] = quality_score_std
         if 'quality_scores_ci95' in result:
-- 
2.43.0


From c6962cadb5eb7a4b7164fe7392ef294c1805dbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:32 +0000
Subject: [PATCH 18/21] fix: the seed of the logistic synthetic dataset reader
 was ignored

---
 sureal/dataset_reader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sureal/dataset_reader.py b/sureal/dataset_reader.py
index 5392039..7935984 100644
--- a/sureal/dataset_reader.py
+++ b/sureal/dataset_reader.py
@@ -748,6 +748,9 @@ class SyntheticLogisticRawDatasetReader(SyntheticRawDatasetReader):
         use logistic instead of
         """
 
+        if 'seed' in self.input_dict:
+            np.random.seed(self.input_dict['seed'])
+
         S = self.num_observers
         E = self.num_dis_videos
 
-- 
2.43.0


From c424a71c7a0befe08ab16c224a0a925844922c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:12:58 +0000
Subject: [PATCH 19/21] fix: parallel_map failed on iterators, so the logistic
 likelihood always raised

---
 sureal/tools/misc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sureal/tools/misc.py b/sureal/tools/misc.py
index 03ff049..944e37e 100644
--- a/sureal/tools/misc.py
+++ b/sureal/tools/misc.py
@@ -194,6 +194,7 @@ def parallel_map(func, list_args, processes=None, pause_sec=0.01):
         return_dict[idx] = executor
 
     # add idx to args
+    list_args = list(list_args)  # may be an iterator
     list_idx_args = []
     for idx, args in enumerate(list_args):
         list_idx_args.append((idx, args))
-- 
2.43.0


From 780c96b7df747d05403e51d32581049c759f6e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:12:58 +0000
Subject: [PATCH 20/21] fix: an interrupted write of a persisted result left a
 truncated cache file which every later call failed to load

---
 sureal/tools/decorator.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/sureal/tools/decorator.py b/sureal/tools/decorator.py
index 081fbbb..7760c78 100644
--- a/sureal/tools/decorator.py
+++ b/sureal/tools/decorator.py
@@ -9,6 +9,20 @@ __copyright__ = "Copyright 2016-2018, Netflix, Inc."
 __license__ = "Apache, Version 2.0"
 
 
+def _dump_json(obj, file_name):
+    # write aside and rename: an interrupted or failed write must not leave a
+    # truncated file behind, which later calls would fail to load
+    tmp_name = '{}.{}.tmp'.format(file_name, os.getpid())
+    try:
+        with open(tmp_name, 'wt') as f:
+            json.dump(obj, f)
+        os.replace(tmp_name, file_name)
+    except BaseException:
+        if os.path.exists(tmp_name):
+            os.remove(tmp_name)
+        raise
+
+
 def persist_to_file(file_name):
     """
     Cache (or persist) returned value of function in a json file .
@@ -28,8 +42,7 @@ def persist_to_file(file_name):
             h = hashlib.sha1((str(original_func.__name__) + str(args)).encode('utf-8')).hexdigest()
             if h not in cache:
                 cache[h] = original_func(*args)
-                with open(file_name, 'wt') as cache_file:
-                    json.dump(cache, cache_file)
+                _dump_json(cache, file_name)
             return cache[h]
 
         return new_func
@@ -51,7 +64,7 @@ def persist_to_dir(dir_name):
                 if not os.path.exists(dir_name):
                     os.makedirs(dir_name)
                 res = original_func(*args)
-                json.dump(res, open(file_name, 'wt'))
+                _dump_json(res, file_name)
             else:
                 res = json.load(open(file_name, 'rt'))
             return res
-- 
2.43.0


From 49e2f49a7859fac8cd83fab50e6d2ea1bfee110c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:25:55 +0000
Subject: [PATCH 21/21] fix: a dataset file rewritten within a second could be
 loaded as its previous version

---
 sureal/tools/misc.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sureal/tools/misc.py b/sureal/tools/misc.py
index 944e37e..d2fc3d4 100644
--- a/sureal/tools/misc.py
+++ b/sureal/tools/misc.py
@@ -117,8 +117,11 @@ def import_python_file(filepath):
         from importlib.machinery import SourceFileLoader
         from importlib.util import spec_from_loader, module_from_spec
         # a fresh module each time: files of the same name must not share state
-        ret = module_from_spec(spec_from_loader(filename, SourceFileLoader(filename, filepath)))
-        ret.__spec__.loader.exec_module(ret)
+        loader = SourceFileLoader(filename, filepath)
+        ret = module_from_spec(spec_from_loader(filename, loader))
+        # not exec_module: it may run cached bytecode of a previous version of
+        # the file if that has the same size and was written in the same second
+        exec(loader.source_to_code(loader.get_data(filepath), filepath), ret.__dict__)
     except ImportError:
         import imp
         ret = imp.load_source(filename, filepath)
-- 
2.43.0

