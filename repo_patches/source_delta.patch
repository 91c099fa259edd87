From 144551ba3fb97ce57ebf022fbb298f48c1ba28c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:15 +0000
Subject: [PATCH 01/36] fix: mip-cbc does not ask CBC for a further committee
 once all committees were found

If all committees of the requested size are winning, the remaining problem is
infeasible, but CBC may report OPTIMAL with an all-zero solution, so that valid
computations failed with a RuntimeError.
---
 abcvoting/abcrules_mip.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/abcvoting/abcrules_mip.py b/abcvoting/abcrules_mip.py
index 419043b..dadb67e 100644
--- a/abcvoting/abcrules_mip.py
+++ b/abcvoting/abcrules_mip.py
@@ -3,7 +3,7 @@
 import functools
 import itertools
 import mip
-from abcvoting.misc import sorted_committees
+from abcvoting.misc import binom, sorted_committees
 from abcvoting import scores
 from abcvoting.output import output
 
@@ -157,6 +157,10 @@ def _optimize_rule_mip(
             break
         if max_num_of_committees is not None and len(committees) >= max_num_of_committees:
             return committees
+        if len(committees) == binom(profile.num_cand, committeesize):
+            # all committees are winning; do not rely on the solver for detecting the infeasibility
+            # of the remaining problem (CBC may return a bogus solution with status OPTIMAL)
+            break
 
         # find a new committee that has not been found yet by excluding previously found committees
         if reuse_model:
-- 
2.43.0


From 99ab9e42a4e5b13718a83fd1e87e8ed4b489d599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:15 +0000
Subject: [PATCH 02/36] fix: Phragmen optimisation rules sort and limit
 committees if too few candidates are approved

The branch for too few approved candidates returned unsorted plain sets and
ignored max_num_of_committees.
---
 abcvoting/abcrules_gurobi.py | 22 ++++++++++++++--------
 abcvoting/abcrules_mip.py    | 11 +++++++----
 2 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/abcvoting/abcrules_gurobi.py b/abcvoting/abcrules_gurobi.py
index 4abf087..07fb05b 100644
--- a/abcvoting/abcrules_gurobi.py
+++ b/abcvoting/abcrules_gurobi.py
@@ -425,12 +425,15 @@ def _gurobi_minimaxphragmen(profile, committeesize, resolute, max_num_of_committ
         num_missing_candidates = committeesize - len(approved_candidates)
 
         if resolute:
-            return [approved_candidates | set(remaining_candidates[:num_missing_candidates])]
+            max_num_of_committees = 1
 
-        return [
+        return sorted_committees(
             approved_candidates | set(extra)
-            for extra in itertools.combinations(remaining_candidates, num_missing_candidates)
-        ]
+            for extra in itertools.islice(
+                itertools.combinations(remaining_candidates, num_missing_candidates),
+                max_num_of_committees,
+            )
+        )
 
     committees, _ = _optimize_rule_gurobi(
         set_opt_model_func=set_opt_model_func,
@@ -521,12 +524,15 @@ def _gurobi_leximaxphragmen(profile, committeesize, resolute, max_num_of_committ
         num_missing_candidates = committeesize - len(approved_candidates)
 
         if resolute:
-            return [approved_candidates | set(remaining_candidates[:num_missing_candidates])]
+            max_num_of_committees = 1
 
-        return [
+        return sorted_committees(
             approved_candidates | set(extra)
-            for extra in itertools.combinations(remaining_candidates, num_missing_candidates)
-        ]
+            for extra in itertools.islice(
+                itertools.combinations(remaining_candidates, num_missing_candidates),
+                max_num_of_committees,
+            )
+        )
 
     loadbounds = []
     for iteration in range(len(profile) - 1):
diff --git a/abcvoting/abcrules_mip.py b/abcvoting/abcrules_mip.py
index dadb67e..6bf32dd 100644
--- a/abcvoting/abcrules_mip.py
+++ b/abcvoting/abcrules_mip.py
@@ -365,12 +365,15 @@ def _mip_minimaxphragmen(profile, committeesize, resolute, max_num_of_committees
         num_missing_candidates = committeesize - len(approved_candidates)
 
         if resolute:
-            return [approved_candidates | set(remaining_candidates[:num_missing_candidates])]
+            max_num_of_committees = 1
 
-        return [
+        return sorted_committees(
             approved_candidates | set(extra)
-            for extra in itertools.combinations(remaining_candidates, num_missing_candidates)
-        ]
+            for extra in itertools.islice(
+                itertools.combinations(remaining_candidates, num_missing_candidates),
+                max_num_of_committees,
+            )
+        )
 
     committees = _optimize_rule_mip(
         set_opt_model_func,
-- 
2.43.0


From ba9fe95e8ec1afd7d84e7af431c1a9a226bf4a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:12 +0000
Subject: [PATCH 03/36] fix: correct load bounds in Phragmen optimisation rules
 for weights below 1

Loads are per unit of weight and can exceed 1 (and the committee size) if weights
are smaller than 1; such loads were wrongly excluded.
---
 abcvoting/abcrules_gurobi.py | 15 +++++++++------
 abcvoting/abcrules_mip.py    |  6 ++----
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/abcvoting/abcrules_gurobi.py b/abcvoting/abcrules_gurobi.py
index 07fb05b..d074153 100644
--- a/abcvoting/abcrules_gurobi.py
+++ b/abcvoting/abcrules_gurobi.py
@@ -381,7 +381,7 @@ def _gurobi_minimaxphragmen(profile, committeesize, resolute, max_num_of_committ
         load = {}
         for cand in profile.candidates:
             for i, voter in enumerate(profile):
-                load[(voter, cand)] = model.addVar(ub=1.0, lb=0.0, name=f"load{i}-{cand}")
+                load[(voter, cand)] = model.addVar(lb=0.0, name=f"load{i}-{cand}")
 
         # constraint: the committee has the required size
         model.addConstr(
@@ -404,7 +404,7 @@ def _gurobi_minimaxphragmen(profile, committeesize, resolute, max_num_of_committ
                 >= in_committee[cand]
             )
 
-        loadbound = model.addVar(lb=0, ub=committeesize, name="loadbound")
+        loadbound = model.addVar(lb=0, name="loadbound")
         for voter in profile:
             model.addConstr(
                 gb.quicksum(load[(voter, cand)] for cand in voter.approved) <= loadbound
@@ -452,7 +452,7 @@ def _gurobi_leximaxphragmen(profile, committeesize, resolute, max_num_of_committ
         loadbound_constraint = {}
         for cand in profile.candidates:
             for i, voter in enumerate(profile):
-                load[(voter, cand)] = model.addVar(ub=1.0, lb=0.0, name=f"load{i}-{cand}")
+                load[(voter, cand)] = model.addVar(lb=0.0, name=f"load{i}-{cand}")
 
         for i, _ in enumerate(profile):
             for j, _ in enumerate(profile):
@@ -494,18 +494,18 @@ def _gurobi_leximaxphragmen(profile, committeesize, resolute, max_num_of_committ
                 model.addConstr(
                     gb.quicksum(load[(voter, cand)] for cand in voter.approved)
                     <= loadbounds[i]
-                    + (1 - loadbound_constraint[(i, j)]) * committeesize
+                    + (1 - loadbound_constraint[(i, j)]) * max_load
                     + ACCURACY
                     # constraint applies only if loadbound_constraint[(i, voter)] == 1
                 )
 
-        newloadbound = model.addVar(lb=0, ub=committeesize, name="new loadbound")
+        newloadbound = model.addVar(lb=0, name="new loadbound")
         for j, voter in enumerate(profile):
             model.addConstr(
                 gb.quicksum(load[(voter, cand)] for cand in voter.approved)
                 <= newloadbound
                 + gb.quicksum(
-                    loadbound_constraint[(i, j)] * committeesize for i in range(len(loadbounds))
+                    loadbound_constraint[(i, j)] * max_load for i in range(len(loadbounds))
                 )
             )
 
@@ -534,6 +534,9 @@ def _gurobi_leximaxphragmen(profile, committeesize, resolute, max_num_of_committ
             )
         )
 
+    # no voter has to bear a larger load than this (weights can be smaller than 1)
+    max_load = committeesize / min(1.0, min(float(voter.weight) for voter in profile))
+
     loadbounds = []
     for iteration in range(len(profile) - 1):
         # in interation we enforce a new loadbound.
diff --git a/abcvoting/abcrules_mip.py b/abcvoting/abcrules_mip.py
index 6bf32dd..339c458 100644
--- a/abcvoting/abcrules_mip.py
+++ b/abcvoting/abcrules_mip.py
@@ -322,7 +322,7 @@ def _mip_minimaxphragmen(profile, committeesize, resolute, max_num_of_committees
         for cand in profile.candidates:
             for i, voter in enumerate(profile):
                 load[(voter, cand)] = model.add_var(
-                    lb=0.0, ub=1.0, var_type=mip.CONTINUOUS, name=f"load{i}-{cand}"
+                    lb=0.0, var_type=mip.CONTINUOUS, name=f"load{i}-{cand}"
                 )
 
         # constraint: the committee has the required size
@@ -344,9 +344,7 @@ def _mip_minimaxphragmen(profile, committeesize, resolute, max_num_of_committees
                 >= in_committee[cand]
             )
 
-        loadbound = model.add_var(
-            lb=0, ub=committeesize, var_type=mip.CONTINUOUS, name="loadbound"
-        )
+        loadbound = model.add_var(lb=0, var_type=mip.CONTINUOUS, name="loadbound")
         for voter in profile:
             model += mip.xsum(load[(voter, cand)] for cand in voter.approved) <= loadbound
 
-- 
2.43.0


From 7f538a98298c2a401e42a2fd905cfa40272e63b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:12 +0000
Subject: [PATCH 04/36] fix: minimax-Phragmen via CBC builds a fresh model for
 each committee

Re-using the CBC model leads to wrong objective values and all-zero solutions, and
hence to RuntimeErrors for valid computations.
---
 abcvoting/abcrules_mip.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/abcvoting/abcrules_mip.py b/abcvoting/abcrules_mip.py
index 339c458..949ed0a 100644
--- a/abcvoting/abcrules_mip.py
+++ b/abcvoting/abcrules_mip.py
@@ -381,6 +381,7 @@ def _mip_minimaxphragmen(profile, committeesize, resolute, max_num_of_committees
         max_num_of_committees=max_num_of_committees,
         solver_id=solver_id,
         name="minimaxphragmen",
+        reuse_model=False,
     )
     return sorted_committees(committees)
 
-- 
2.43.0


From b2ccf0553acd101467229ce32aafd2d77e9a0509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:52 +0000
Subject: [PATCH 05/36] fix: seq-Phragmen: never prefer unapproved or already
 elected candidates

The sentinel values committeesize+1 and committeesize+2 are smaller than possible
loads if weights are smaller than 1 (also in phase 2 of Equal Shares); unapproved
candidates were chosen before approved ones and candidates were chosen twice.
---
 abcvoting/abcrules.py | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/abcvoting/abcrules.py b/abcvoting/abcrules.py
index e2ae4e7..103f675 100644
--- a/abcvoting/abcrules.py
+++ b/abcvoting/abcrules.py
@@ -2839,20 +2839,16 @@ def _seqphragmen_resolute(
         new_maxload = [
             division(approvers_load[cand] + 1, approvers_weight[cand])
             if approvers_weight[cand] > 0
-            else committeesize + 1
+            else math.inf  # larger than the load of any approved candidate
             for cand in profile.candidates
         ]
-        # exclude committees already in the committee
-        for cand in profile.candidates:
-            if cand in committee:
-                new_maxload[cand] = committeesize + 2  # that's larger than any possible value
-        opt = min(new_maxload)
+        # exclude candidates already in the committee
+        remaining_cands = [cand for cand in profile.candidates if cand not in committee]
+        opt = min(new_maxload[cand] for cand in remaining_cands)
         if algorithm == "float-fractions":
-            tied_cands = [
-                cand for cand in profile.candidates if misc.isclose(new_maxload[cand], opt)
-            ]
+            tied_cands = [cand for cand in remaining_cands if misc.isclose(new_maxload[cand], opt)]
         else:
-            tied_cands = [cand for cand in profile.candidates if new_maxload[cand] == opt]
+            tied_cands = [cand for cand in remaining_cands if new_maxload[cand] == opt]
         next_cand = tied_cands[0]
         # compute new loads and add new candidate
         for v, voter in enumerate(profile):
@@ -2917,20 +2913,19 @@ def _seqphragmen_irresolute(
         new_maxload = [
             division(approvers_load[cand] + 1, approvers_weight[cand])
             if approvers_weight[cand] > 0
-            else committeesize + 1
+            else math.inf  # larger than the load of any approved candidate
             for cand in profile.candidates
         ]
-        # exclude committees already in the committee
-        for cand in profile.candidates:
-            if cand in committee:
-                new_maxload[cand] = committeesize + 2  # that's larger than any possible value
+        # exclude candidates already in the committee
+        remaining_cands = [cand for cand in profile.candidates if cand not in committee]
+        opt = min(new_maxload[cand] for cand in remaining_cands)
         # compute new loads
         new_committee_load_pairs = []
-        for cand in profile.candidates:
+        for cand in remaining_cands:
             if algorithm == "float-fractions":
-                select_cand = misc.isclose(new_maxload[cand], min(new_maxload))
+                select_cand = misc.isclose(new_maxload[cand], opt)
             else:
-                select_cand = new_maxload[cand] <= min(new_maxload)
+                select_cand = new_maxload[cand] <= opt
 
             if select_cand:
                 new_load = [0] * len(profile)
-- 
2.43.0


From a17d781ce7c9f3479974757d0f5eb2d952f129e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:24 +0000
Subject: [PATCH 06/36] fix: E Pluribus Hugo works for profiles with a single
 candidate

---
 abcvoting/abcrules.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/abcvoting/abcrules.py b/abcvoting/abcrules.py
index 103f675..1b63d12 100644
--- a/abcvoting/abcrules.py
+++ b/abcvoting/abcrules.py
@@ -4510,7 +4510,8 @@ def _eph_algorithm(rule_id, profile, algorithm, committeesize, resolute, max_num
                 sdv_score[cand] += division(voter.weight, len(remaining_approved))
                 av_score[cand] += voter.weight
 
-        cutoff_sdv = sorted(sdv_score.values())[1]  # 2nd smallest value
+        # 2nd smallest value (or the only one if there is only one candidate)
+        cutoff_sdv = sorted(sdv_score.values())[:2][-1]
         elimination_cands = [
             cand
             for cand in remaining_candidates
-- 
2.43.0


From 9f7a16742da905df9ca52a419a7966ac1c2a7d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:45 +0000
Subject: [PATCH 07/36] fix: Equal Shares with increment completion terminates
 with a committee for weights below 1

The range of virtual committee sizes was too small for fractional weights, which led
to a RuntimeError ("Critical bug").
---
 abcvoting/abcrules.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/abcvoting/abcrules.py b/abcvoting/abcrules.py
index 1b63d12..40779f0 100644
--- a/abcvoting/abcrules.py
+++ b/abcvoting/abcrules.py
@@ -3454,9 +3454,12 @@ def _equal_shares_algorithm_with_increment_completion(
         detailed_info = {"too_few_approved_candidates": True}
         return committees, detailed_info
 
-    for increment_committeesize in range(
-        committeesize, math.ceil(committeesize * profile.total_weight() + 1)
-    ):
+    # with this (virtual) committee size every voter can afford a whole committee
+    # (note that weights can be smaller than 1)
+    max_increment_committeesize = math.ceil(
+        committeesize * profile.total_weight() / min(1, min(voter.weight for voter in profile))
+    )
+    for increment_committeesize in range(committeesize, max_increment_committeesize + 1):
         committees, detailed_info = _equal_shares_algorithm(
             profile,
             committeesize,
-- 
2.43.0


From 30a30701148bc7838870a86834cb51bbf46f6416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:54 +0000
Subject: [PATCH 08/36] fix: do not re-use CBC models when enumerating winning
 committees

CBC starts from the previous solution and then may crash the process (Monroe) or
report wrong solutions; a fresh model is built for each committee instead.
---
 abcvoting/abcrules_mip.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/abcvoting/abcrules_mip.py b/abcvoting/abcrules_mip.py
index 949ed0a..029af15 100644
--- a/abcvoting/abcrules_mip.py
+++ b/abcvoting/abcrules_mip.py
@@ -21,7 +21,7 @@ def _optimize_rule_mip(
     solver_id,
     name="None",
     committeescorefct=None,
-    reuse_model=True,
+    reuse_model=False,
 ):
     """Compute rules, which are given in the form of an optimization problem, using Python MIP.
 
@@ -44,7 +44,8 @@ def _optimize_rule_mip(
         a function used to compute the score of a committee
     reuse_model : bool
         use the same model in each iteration and just add additional constraints,
-        faster if reuse_model==True
+        faster if reuse_model==True, but not reliable with CBC (which starts from the previous
+        solution and then may crash or return wrong solutions)
 
     Returns
     -------
@@ -381,7 +382,6 @@ def _mip_minimaxphragmen(profile, committeesize, resolute, max_num_of_committees
         max_num_of_committees=max_num_of_committees,
         solver_id=solver_id,
         name="minimaxphragmen",
-        reuse_model=False,
     )
     return sorted_committees(committees)
 
-- 
2.43.0


From 9f14e7ca6227483147b7f6f925ce98795863d19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:09 +0000
Subject: [PATCH 09/36] fix: EJR+ checker handles quotas larger than n/k

---
 abcvoting/properties.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/abcvoting/properties.py b/abcvoting/properties.py
index 07160d1..996c8b0 100644
--- a/abcvoting/properties.py
+++ b/abcvoting/properties.py
@@ -1093,7 +1093,9 @@ def _check_EJR_plus(profile, committee, quota):
     for cand in profile.candidates:
         if cand in committee:
             continue
-        supporters_by_utility = {ell: set() for ell in range(ell_upper_bound + 1)}
+        # with a quota larger than n/k, some voters may have a utility above `ell_upper_bound`
+        max_utility = max(ell_upper_bound, len(committee))
+        supporters_by_utility = {utility: set() for utility in range(max_utility + 1)}
         for vi, voter in enumerate(profile):
             if cand in voter.approved:
                 utility = len(voter.approved & committee)
-- 
2.43.0


From 3d9cd5ece0151bfad98e4c7e94928acc70768e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:31 +0000
Subject: [PATCH 10/36] fix: brute-force EJR and PJR checkers support weighted
 profiles

---
 abcvoting/properties.py | 60 ++++++++++++++++++++++++++++-------------
 1 file changed, 42 insertions(+), 18 deletions(-)

diff --git a/abcvoting/properties.py b/abcvoting/properties.py
index 996c8b0..251e6ea 100644
--- a/abcvoting/properties.py
+++ b/abcvoting/properties.py
@@ -694,6 +694,34 @@ def _check_pareto_optimality_gurobi(profile, committee):
     raise RuntimeError(f"Gurobi returned an unexpected status code: {model.Status}")
 
 
+def _sufficiently_large_groups(profile, voters, min_weight):
+    """
+    Yield groups of voters with a total weight of at least `min_weight`.
+
+    For profiles with unit weights, only groups of minimum size are considered.
+
+    Parameters
+    ----------
+        profile : abcvoting.preferences.Profile
+            A profile.
+        voters : list of int
+            The (indices of) voters that can be part of a group.
+        min_weight : int or Fraction or float
+            The minimum total weight.
+
+    Yields
+    ------
+        tuple of int
+    """
+    if profile.has_unit_weights():
+        yield from itertools.combinations(voters, math.ceil(min_weight))
+    else:
+        for size in range(1, len(voters) + 1):
+            for group in itertools.combinations(voters, size):
+                if sum(profile[vi].weight for vi in group) >= min_weight:
+                    yield group
+
+
 def _check_EJR_brute_force(profile, committee, quota):
     """
     Test using brute-force whether a committee satisfies EJR.
@@ -721,8 +749,8 @@ def _check_EJR_brute_force(profile, committee, quota):
         voters_less_than_ell_approved_candidates = []
         voters_less_than_ell_approved_candidates_weight = 0
 
-        # compute minimum group size for this ell
-        min_group_size = math.ceil(ell * quota)
+        # compute minimum group size (total weight) for this ell
+        min_group_weight = ell * quota
 
         # compute list of voters to consider
         for i, voter in enumerate(profile):
@@ -731,15 +759,13 @@ def _check_EJR_brute_force(profile, committee, quota):
                 voters_less_than_ell_approved_candidates_weight += voter.weight
 
         # check if an ell-cohesive group can be formed with considered voters
-        if voters_less_than_ell_approved_candidates_weight < min_group_size:
+        if voters_less_than_ell_approved_candidates_weight < min_group_weight:
             # if not possible then simply continue with next ell
             continue
 
-        # check all possible combinations of considered voters,
-        # taken (possible group size) at a time
-        # todo: to support weighted profile, this iterator would need to be adjusted
-        for combination in itertools.combinations(
-            voters_less_than_ell_approved_candidates, min_group_size
+        # check all groups of considered voters that are sufficiently large
+        for combination in _sufficiently_large_groups(
+            profile, voters_less_than_ell_approved_candidates, min_group_weight
         ):
             # compute set of candidates approved by all voters in combination
             cut = set.intersection(*(profile[vi].approved for vi in combination))
@@ -749,7 +775,7 @@ def _check_EJR_brute_force(profile, committee, quota):
                 # we have found combination to be an ell-cohesive set, with no voter having
                 # at least ell approved candidates in committee. Thus EJR fails
                 detailed_information = {
-                    "cohesive_group": voters_less_than_ell_approved_candidates,
+                    "cohesive_group": combination,
                     "ell": ell,
                     "joint_candidates": cut,
                 }
@@ -870,8 +896,8 @@ def _check_PJR_brute_force(profile, committee, quota):
         voters_less_than_ell_approved_candidates = []
         voters_less_than_ell_approved_candidates_weight = 0
 
-        # compute minimum group size for this ell
-        min_group_size = math.ceil(ell * quota)
+        # compute minimum group size (total weight) for this ell
+        min_group_weight = ell * quota
 
         # compute list of voters to consider
         for vi, voter in enumerate(profile):
@@ -880,15 +906,13 @@ def _check_PJR_brute_force(profile, committee, quota):
                 voters_less_than_ell_approved_candidates_weight += voter.weight
 
         # check if an ell-cohesive group can be formed with considered voters
-        if voters_less_than_ell_approved_candidates_weight < min_group_size:
+        if voters_less_than_ell_approved_candidates_weight < min_group_weight:
             # if not possible then simply continue with next ell
             continue
 
-        # check all possible combinations of considered voters,
-        # taken (possible group size) at a time
-        # todo: to support weighted profile, this iterator would need to be adjusted
-        for group in itertools.combinations(
-            voters_less_than_ell_approved_candidates, min_group_size
+        # check all groups of considered voters that are sufficiently large
+        for group in _sufficiently_large_groups(
+            profile, voters_less_than_ell_approved_candidates, min_group_weight
         ):
             # find set of candidates that are approved by all voters in group
             cut = set.intersection(*(profile[j].approved for j in group))
@@ -905,7 +929,7 @@ def _check_PJR_brute_force(profile, committee, quota):
                 # strictly less than ell, then this ell-cohesive group violates PJR
                 if len(approved_cands_union & committee) < ell:
                     detailed_information = {
-                        "cohesive_group": voters_less_than_ell_approved_candidates,
+                        "cohesive_group": group,
                         "ell": ell,
                         "joint_candidates": cut,
                     }
-- 
2.43.0


From cdc3c0a4cf57251a6412876700985bbce9c97bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:09 +0000
Subject: [PATCH 11/36] fix: reject rule ids seqav and revseqav

---
 abcvoting/abcrules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abcvoting/abcrules.py b/abcvoting/abcrules.py
index 40779f0..bf41f2d 100644
--- a/abcvoting/abcrules.py
+++ b/abcvoting/abcrules.py
@@ -315,7 +315,7 @@ class Rule:
             except scores.UnknownScoreFunctionError as error:
                 raise UnknownRuleIDError(rule_id) from error
 
-            if rule_id == "av":
+            if scorefct_id == "av":
                 raise UnknownRuleIDError(rule_id)  # seq-AV and revseq-AV are equivalent to AV
 
             # sequential Thiele methods
-- 
2.43.0


From 8774b696f120587b16d8978ea165935d0a7cb10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:34 +0000
Subject: [PATCH 12/36] fix: Profile.copy keeps candidate names

---
 abcvoting/preferences.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abcvoting/preferences.py b/abcvoting/preferences.py
index a92bf7e..0a9acb2 100644
--- a/abcvoting/preferences.py
+++ b/abcvoting/preferences.py
@@ -268,7 +268,7 @@ class Profile:
         -------
             Profile
         """
-        copy_profile = Profile(num_cand=self.num_cand)
+        copy_profile = Profile(num_cand=self.num_cand, cand_names=self.cand_names)
         copy_profile.add_voters(self._voters)
         return copy_profile
 
-- 
2.43.0


From 38ef616a6c1ed1d5640151af15dba083382dd0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:34 +0000
Subject: [PATCH 13/36] fix: copy.deepcopy works for profiles

---
 abcvoting/preferences.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/abcvoting/preferences.py b/abcvoting/preferences.py
index 0a9acb2..5da1f07 100644
--- a/abcvoting/preferences.py
+++ b/abcvoting/preferences.py
@@ -273,7 +273,9 @@ class Profile:
         return copy_profile
 
     __copy__ = copy
-    __deepcopy__ = copy
+
+    def __deepcopy__(self, memo):
+        return self.copy()
 
     def is_party_list(self):
         """
-- 
2.43.0


From 68435e5d434dce865266dff47a93c5e4a2f4fb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:34 +0000
Subject: [PATCH 14/36] fix: Profile.str_compact groups identical approval sets

---
 abcvoting/preferences.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/abcvoting/preferences.py b/abcvoting/preferences.py
index 5da1f07..99e2fc0 100644
--- a/abcvoting/preferences.py
+++ b/abcvoting/preferences.py
@@ -303,10 +303,11 @@ class Profile:
         """
         compact = OrderedDict()
         for voter in self._voters:
-            if tuple(voter.approved) in compact:
-                compact[tuple(voter.approved)] += voter.weight
+            approval_set = tuple(sorted(voter.approved))
+            if approval_set in compact:
+                compact[approval_set] += voter.weight
             else:
-                compact[tuple(voter.approved)] = voter.weight
+                compact[approval_set] = voter.weight
         if self.has_unit_weights():
             output = ""
         else:
-- 
2.43.0


From dbe2a9a0bdb228e41605ddbe1ab7af3a1f20b0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:47 +0000
Subject: [PATCH 15/36] fix: do not truncate an existing file if an instance
 cannot be written

---
 abcvoting/fileio.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/abcvoting/fileio.py b/abcvoting/fileio.py
index d1c3d9a..14c45bd 100644
--- a/abcvoting/fileio.py
+++ b/abcvoting/fileio.py
@@ -6,6 +6,7 @@ Two data formats are supported:
 2. .abc.yaml files (more expressive than Preflib files).
 """
 
+import io
 import os
 import ruamel.yaml
 import preflibtools.instances as preflib
@@ -398,5 +399,7 @@ def write_abcvoting_instance_to_yaml_file(
 
     yaml = ruamel.yaml.YAML()
     yaml.width = 120
+    content = io.StringIO()
+    yaml.dump(data, content)  # fails before touching the file if `data` cannot be represented
     with open(filename, "w") as outfile:
-        yaml.dump(data, outfile)
+        outfile.write(content.getvalue())
-- 
2.43.0


From 5804ef9c15a13b468f07ee6af07081e380009472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:47 +0000
Subject: [PATCH 16/36] fix: write profiles and committees with numpy integers
 to abc.yaml files

---
 abcvoting/fileio.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/abcvoting/fileio.py b/abcvoting/fileio.py
index 14c45bd..2ab523d 100644
--- a/abcvoting/fileio.py
+++ b/abcvoting/fileio.py
@@ -355,7 +355,9 @@ def write_abcvoting_instance_to_yaml_file(
     data = {}
     if description is not None:
         data["description"] = description
-    data["profile"] = _yaml_flow_style_list([list(voter.approved) for voter in profile])
+    data["profile"] = _yaml_flow_style_list(
+        [[int(cand) for cand in voter.approved] for voter in profile]
+    )
     if not profile.has_unit_weights():
         data["voter_weights"] = _yaml_flow_style_list([voter.weight for voter in profile])
     data["num_cand"] = profile.num_cand
@@ -372,7 +374,7 @@ def write_abcvoting_instance_to_yaml_file(
                     mod_compute_instance["result"] = None
                 else:
                     mod_compute_instance["result"] = _yaml_flow_style_list(
-                        [list(committee) for committee in compute_instance["result"]]
+                        [[int(cand) for cand in committee] for committee in compute_instance["result"]]
                     )  # TODO: would be nicer to store committees in set notation (curly braces)
             if "profile" in compute_instance.keys():  # this is superfluous information
                 # check that the profile is the same as the main profile
-- 
2.43.0


From 47d2bed10aba939b85d648de9d3479a2c867c868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:01 +0000
Subject: [PATCH 17/36] fix: write compute instances without a committee size
 to abc.yaml files

---
 abcvoting/fileio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abcvoting/fileio.py b/abcvoting/fileio.py
index 2ab523d..19967c5 100644
--- a/abcvoting/fileio.py
+++ b/abcvoting/fileio.py
@@ -385,7 +385,7 @@ def write_abcvoting_instance_to_yaml_file(
                     )
             if "committeesize" in compute_instance.keys():  # this is superfluous information
                 # check that the profile is the same as the main profile
-                if int(compute_instance["committeesize"]) != committeesize:
+                if compute_instance["committeesize"] != committeesize:
                     raise ValueError(
                         "Compute instance contained a committee size different from"
                         "the committee size passed to write_abcvoting_instance_to_yaml_file()."
-- 
2.43.0


From 8fe6e3b976f781e65c4acbfbf5cd000d6a0d754b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:01 +0000
Subject: [PATCH 18/36] fix: reject top_ranks=0 and setsize=0

---
 abcvoting/fileio.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/abcvoting/fileio.py b/abcvoting/fileio.py
index 19967c5..6619127 100644
--- a/abcvoting/fileio.py
+++ b/abcvoting/fileio.py
@@ -102,11 +102,11 @@ def read_preflib_file(filename, top_ranks=None, setsize=None, use_weights=False)
     """
     if top_ranks is None and setsize is None:
         top_ranks = 1  # default
-    if top_ranks and setsize:
+    if top_ranks is not None and setsize is not None:
         raise ValueError("Parameters top_ranks and setsize cannot be used simultaneously.")
-    if top_ranks and top_ranks <= 0:
+    if top_ranks is not None and top_ranks <= 0:
         raise ValueError("Parameter top_ranks must be > 0")
-    if setsize and setsize <= 0:
+    if setsize is not None and setsize <= 0:
         raise ValueError("Parameter setsize must be > 0")
 
     try:
-- 
2.43.0


From 1c2ecaf9fceb626667940b6e4add2bfe97c59e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:01 +0000
Subject: [PATCH 19/36] fix: write integral float weights as integers to
 PrefLib files

---
 abcvoting/fileio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abcvoting/fileio.py b/abcvoting/fileio.py
index 6619127..3249d51 100644
--- a/abcvoting/fileio.py
+++ b/abcvoting/fileio.py
@@ -234,7 +234,7 @@ def write_profile_to_preflib_cat_file(filepath, profile):
             tuple(cand + 1 for cand in profile.candidates if cand not in voter.approved),
         )
         if int(voter.weight) == voter.weight:
-            multiplicity = voter.weight
+            multiplicity = int(voter.weight)
         else:
             multiplicity = 1
         if pref not in preflib_inst.preferences:
-- 
2.43.0


From b581355f9557575d1eadd1c0f3c95ef745ac19f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:11 +0000
Subject: [PATCH 20/36] fix: keep all voters when reading ordinal PrefLib files
 with setsize

---
 abcvoting/fileio.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/abcvoting/fileio.py b/abcvoting/fileio.py
index 3249d51..4630c04 100644
--- a/abcvoting/fileio.py
+++ b/abcvoting/fileio.py
@@ -116,16 +116,8 @@ def read_preflib_file(filename, top_ranks=None, setsize=None, use_weights=False)
             "The preflib parser returned the following error: " + str(e)
         )
 
-    if isinstance(preflib_inst, preflib.OrdinalInstance):
-        if setsize:
-            preflib_inst = preflib.CategoricalInstance.from_ordinal(
-                preflib_inst, size_truncators=[setsize]
-            )
-        elif top_ranks:
-            preflib_inst = preflib.CategoricalInstance.from_ordinal(
-                preflib_inst, num_indif_classes=[1] * preflib_inst.num_alternatives
-            )
-    elif not isinstance(preflib_inst, preflib.CategoricalInstance):
+    # in ordinal instances, ranks (indifference classes) take the role of categories
+    if not isinstance(preflib_inst, (preflib.OrdinalInstance, preflib.CategoricalInstance)):
         raise ValueError("Only ordinal and categorical preferences can be converted from PrefLib")
 
     # normalize candidates to 0, 1, 2, ...
-- 
2.43.0


From 19a26cc39cbdade07ab23a65a3a0d51c00cbcff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:36 +0000
Subject: [PATCH 21/36] fix: generate approval sets of exactly the requested
 size

---
 abcvoting/generate.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/abcvoting/generate.py b/abcvoting/generate.py
index bf75d05..17caa5e 100644
--- a/abcvoting/generate.py
+++ b/abcvoting/generate.py
@@ -39,6 +39,12 @@ def prefsampling_wrapper(sampler, sampler_params):
     return profile
 
 
+def _relative_setsize(setsize, num_cand):
+    # prefsampling rounds `rel_num_approvals * num_cand` down;
+    # `setsize / num_cand` may be slightly too small due to rounding
+    return np.nextafter(setsize / num_cand, 1)
+
+
 def random_profile(num_voters, num_cand, prob_distribution):
     """
     Generate a random profile using the probability distribution `prob_distribution`.
@@ -124,7 +130,7 @@ def random_urn_fixed_size_profile(num_voters, num_cand, setsize, replace):
         {
             "num_voters": num_voters,
             "num_candidates": num_cand,
-            "rel_num_approvals": setsize / num_cand,
+            "rel_num_approvals": _relative_setsize(setsize, num_cand),
             "alpha": replace,
         },
     )
@@ -154,7 +160,7 @@ def random_ic_fixed_size_profile(num_voters, num_cand, setsize):
         {
             "num_voters": num_voters,
             "num_candidates": num_cand,
-            "rel_num_approvals": setsize / num_cand,
+            "rel_num_approvals": _relative_setsize(setsize, num_cand),
         },
     )
 
@@ -187,7 +193,7 @@ def random_mallows_profile(num_voters, num_cand, setsize, dispersion):
         {
             "num_voters": num_voters,
             "num_candidates": num_cand,
-            "rel_num_approvals": setsize / num_cand,
+            "rel_num_approvals": _relative_setsize(setsize, num_cand),
             "ordinal_sampler": ord_samplers.mallows,
             "ordinal_sampler_parameters": {"phi": dispersion},
         },
@@ -302,7 +308,7 @@ def random_truncated_urn_profile(num_voters, num_cand, setsize, replace):
         {
             "num_voters": num_voters,
             "num_candidates": num_cand,
-            "rel_num_approvals": setsize / num_cand,
+            "rel_num_approvals": _relative_setsize(setsize, num_cand),
             "ordinal_sampler": ord_samplers.urn,
             "ordinal_sampler_parameters": {"alpha": replace},
         },
@@ -632,7 +638,7 @@ def random_euclidean_fixed_size_profile(
         candidate_points,
         return_points,
         app_samplers.euclidean_constant_size,
-        {"rel_num_approvals": setsize / num_cand},
+        {"rel_num_approvals": _relative_setsize(setsize, num_cand)},
     )
 
 
-- 
2.43.0


From 8c0aded9dd45b9061063a78fbead018c8ea8017c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:36 +0000
Subject: [PATCH 22/36] fix: restore the verbosity if full_analysis fails

---
 abcvoting/properties.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/abcvoting/properties.py b/abcvoting/properties.py
index 251e6ea..9066d39 100644
--- a/abcvoting/properties.py
+++ b/abcvoting/properties.py
@@ -60,8 +60,12 @@ def full_analysis(profile, committee):
     current_verbosity = output.verbosity
     output.set_verbosity(WARNING)
 
-    for property_name in PROPERTY_NAMES:
-        results[property_name] = check(property_name, profile, committee)
+    try:
+        for property_name in PROPERTY_NAMES:
+            results[property_name] = check(property_name, profile, committee)
+    finally:
+        # restore output verbosity
+        output.set_verbosity(current_verbosity)
 
     description = {
         "pareto": "Pareto optimality",
@@ -75,9 +79,6 @@ def full_analysis(profile, committee):
         "core": "The core",
     }
 
-    # restore output verbosity
-    output.set_verbosity(current_verbosity)
-
     for prop, value in results.items():
         output.info(f"{description[prop]:50s} : {value}")
 
-- 
2.43.0


From 6736811bcbeb3732e8140ebbb3e321f2adbdc196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:06 +0000
Subject: [PATCH 23/36] fix: reject geometric rules with invalid parameters

---
 abcvoting/abcrules.py |  4 ++++
 abcvoting/scores.py   | 12 ++++++++++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/abcvoting/abcrules.py b/abcvoting/abcrules.py
index bf41f2d..2bb1b45 100644
--- a/abcvoting/abcrules.py
+++ b/abcvoting/abcrules.py
@@ -296,6 +296,10 @@ class Rule:
             self.algorithms = ("float-fractions", "gmpy2-fractions", "standard-fractions")
             self.resolute_values = (False, True)
         elif rule_id.startswith("geom"):
+            try:
+                scores.get_marginal_scorefct(rule_id)
+            except scores.UnknownScoreFunctionError as error:
+                raise UnknownRuleIDError(rule_id) from error
             parameter = rule_id[4:]
             self.shortname = f"{parameter}-Geometric"
             self.longname = f"{parameter}-Geometric Rule"
diff --git a/abcvoting/scores.py b/abcvoting/scores.py
index 7fe0483..0714284 100644
--- a/abcvoting/scores.py
+++ b/abcvoting/scores.py
@@ -52,10 +52,18 @@ def get_marginal_scorefct(scorefct_id, committeesize=None):
     if scorefct_id == "av":
         return av_score_fct
     if scorefct_id[:4] == "geom":
-        base = Fraction(scorefct_id[4:])
+        try:
+            base = Fraction(scorefct_id[4:])
+        except (ValueError, ZeroDivisionError) as error:
+            raise UnknownScoreFunctionError(scorefct_id) from error
+        if base <= 0:
+            raise UnknownScoreFunctionError(scorefct_id)
         return functools.partial(geometric_marginal_score_fct, base=base)
     if scorefct_id[:7] == "atleast":
-        param = int(scorefct_id[7:])
+        try:
+            param = int(scorefct_id[7:])
+        except ValueError as error:
+            raise UnknownScoreFunctionError(scorefct_id) from error
         return functools.partial(at_least_ell_fct, ell=param)
 
     raise UnknownScoreFunctionError(scorefct_id)
-- 
2.43.0


From f57f02203a9ebda4f155390973a33cad8ae8784b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:40 +0000
Subject: [PATCH 24/36] fix: no duplicate committees for irresolute reverse
 sequential Thiele rules

---
 abcvoting/abcrules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abcvoting/abcrules.py b/abcvoting/abcrules.py
index 2bb1b45..412bfe6 100644
--- a/abcvoting/abcrules.py
+++ b/abcvoting/abcrules.py
@@ -1717,7 +1717,7 @@ def _revseq_thiele_irresolute(scorefct_id, profile, committeesize, max_num_of_co
                 cand for cand in profile.candidates if marg_util_cand[cand] == min(marg_util_cand)
             ]
             for cand in cands_to_remove:
-                next_committee = tuple(set(committee) - {cand})
+                next_committee = tuple(c for c in committee if c != cand)
                 comm_scores_next[next_committee] = score - score_reduction
             comm_scores = comm_scores_next
 
-- 
2.43.0


From 0b850e42b693dc65567724e4fa5ce4405710907a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:45 +0000
Subject: [PATCH 25/36] fix: log messages on tiebreaking show candidate names

---
 abcvoting/abcrules.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/abcvoting/abcrules.py b/abcvoting/abcrules.py
index 412bfe6..74b9f0b 100644
--- a/abcvoting/abcrules.py
+++ b/abcvoting/abcrules.py
@@ -1245,7 +1245,7 @@ def compute_seq_thiele_method(
                     indent=" ",
                 )
                 if len(tied_cands) > 1:
-                    output.details(f"tie broken in favor of {next_cand},\n", indent=" ")
+                    output.details(f"tie broken in favor of {profile.cand_names[next_cand]},\n", indent=" ")
                     output.details(
                         f"candidates "
                         f"{str_set_of_candidates(tied_cands, cand_names=profile.cand_names)} "
@@ -1636,7 +1636,10 @@ def compute_revseq_thiele_method(
                 indent=" ",
             )
             if len(tied_cands) > 1:
-                output.details(f"tie broken to the disadvantage of {next_cand},", indent=" ")
+                output.details(
+                    f"tie broken to the disadvantage of {profile.cand_names[next_cand]},",
+                    indent=" ",
+                )
                 output.details(
                     f"candidates "
                     f"{str_set_of_candidates(tied_cands, cand_names=profile.cand_names)}"
@@ -3808,7 +3811,9 @@ def compute_maximin_support(
                 indent=" ",
             )
             if len(tied_cands) > 1:
-                output.details(f"tie broken in favor of {next_cand},", indent=" ")
+                output.details(
+                    f"tie broken in favor of {profile.cand_names[next_cand]},", indent=" "
+                )
                 output.details(
                     f"candidates "
                     f"{str_set_of_candidates(tied_cands, cand_names=profile.cand_names)} "
-- 
2.43.0


From 031729fbd51264d6dd7223bb3fb5b86a669365bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:45 +0000
Subject: [PATCH 26/36] fix: log all tied candidates for reverse sequential
 Thiele methods

---
 abcvoting/abcrules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abcvoting/abcrules.py b/abcvoting/abcrules.py
index 74b9f0b..8284710 100644
--- a/abcvoting/abcrules.py
+++ b/abcvoting/abcrules.py
@@ -1686,7 +1686,7 @@ def _revseq_thiele_resolute(scorefct_id, profile, committeesize):
             cand for cand in profile.candidates if marg_util_cand[cand] == min(marg_util_cand)
         ]
         next_cand = cands_to_remove[-1]
-        tied_cands = cands_to_remove[:-1]
+        tied_cands = cands_to_remove
         committee.remove(next_cand)
 
         detailed_info["next_cand"].append(next_cand)
-- 
2.43.0


From 1a6f03deff883f138b64eeff6185cefae873a7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:45 +0000
Subject: [PATCH 27/36] fix: correct name of score in log messages of reverse
 sequential Thiele methods

---
 abcvoting/abcrules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abcvoting/abcrules.py b/abcvoting/abcrules.py
index 8284710..177283e 100644
--- a/abcvoting/abcrules.py
+++ b/abcvoting/abcrules.py
@@ -1654,7 +1654,7 @@ def compute_revseq_thiele_method(
         str_committees_with_header(committees, cand_names=profile.cand_names, winning=True)
     )
 
-    msg = "PAV-score of winning committee:"
+    msg = f"{scorefct_id.upper()}-score of winning committee:"
     if not resolute and len(committees) != 1:
         msg += "\n"
     for committee in committees:
-- 
2.43.0


From 7fe9927758c44c3e2b419e73d5a5ce05c6b8e46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:45 +0000
Subject: [PATCH 28/36] fix: separate distance vectors in log messages of
 lexminimaxav

---
 abcvoting/abcrules.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/abcvoting/abcrules.py b/abcvoting/abcrules.py
index 177283e..93fe320 100644
--- a/abcvoting/abcrules.py
+++ b/abcvoting/abcrules.py
@@ -2338,8 +2338,8 @@ def compute_lexminimaxav(
     output.details("Minimum maximal distance: " + str(max(opt_distances)))
     msg = "Corresponding distances to voters:\n"
     for committee in committees:
-        msg += str([misc.hamming(voter.approved, committee) for voter in profile])
-    output.details(msg + "\n")
+        msg += str([misc.hamming(voter.approved, committee) for voter in profile]) + "\n"
+    output.details(msg)
     # end of optional output
 
     return committees
-- 
2.43.0


From f470b39a7e75a76099721e2b9194e295142c163e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:45 +0000
Subject: [PATCH 29/36] fix: correct description of starting loads in log
 messages of Equal Shares

---
 abcvoting/abcrules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abcvoting/abcrules.py b/abcvoting/abcrules.py
index 93fe320..4d51a44 100644
--- a/abcvoting/abcrules.py
+++ b/abcvoting/abcrules.py
@@ -3195,7 +3195,7 @@ def compute_equal_shares(
         if detailed_info["phragmen_start_load"]:  # the second phase (seq-Phragmen) was used
             phragmen_start_load = detailed_info["phragmen_start_load"]
             output.details("Phase 2 (seq-Phragmén):\n")
-            output.details("starting loads (= budget spent):")
+            output.details("starting loads (= remaining budget times -1, divided by weight):")
             msg = "("
             for v, _ in enumerate(profile):
                 msg += str(phragmen_start_load[v]) + ", "
-- 
2.43.0


From 177f16d4496f6b0a6c2782d510213b24f7caedd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:45 +0000
Subject: [PATCH 30/36] fix: log the actual maximum load for seq-Phragmen

---
 abcvoting/abcrules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abcvoting/abcrules.py b/abcvoting/abcrules.py
index 4d51a44..43317e7 100644
--- a/abcvoting/abcrules.py
+++ b/abcvoting/abcrules.py
@@ -2866,7 +2866,7 @@ def _seqphragmen_resolute(
         detailed_info["next_cand"].append(next_cand)
         detailed_info["tied_cands"].append(tied_cands)
         detailed_info["load"].append(list(load))  # create copy of `load`
-        detailed_info["max_load"].append(opt)
+        detailed_info["max_load"].append(max(load))
 
     detailed_info["committee_load_pairs"] = {tuple(committee): load}
     return [committee], detailed_info
-- 
2.43.0


From f956e2b0f4cfd495d425f58ff635e4bf48ed0109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:05 +0000
Subject: [PATCH 31/36] fix: formatting of the FJR witness message

---
 abcvoting/properties.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/abcvoting/properties.py b/abcvoting/properties.py
index 9066d39..9c062e1 100644
--- a/abcvoting/properties.py
+++ b/abcvoting/properties.py
@@ -1439,10 +1439,11 @@ def check_FJR(profile, committee, quota=None, algorithm="fastest"):
         fractional_size = sum(profile[vi].weight for vi in cohesive_group) / profile.total_weight()
         output.details(
             f"(The weakly cohesive group of voters {str_set_of_candidates(cohesive_group)}"
-            f"({fractional_size*100:.1f}% of all voters"
+            f" ({fractional_size*100:.1f}% of all voters"
             f"{' (by weight)' if not profile.has_unit_weights() else ''})"
-            f"each approve at least {beta} of the {ell} candidates {str_set_of_candidates(cands)},"
-            f"but all approve at most {beta - 1} candidates in the committee.)",
+            f" each approve at least {beta} of the {ell} candidates "
+            f"{str_set_of_candidates(cands)},"
+            f" but all approve at most {beta - 1} candidates in the committee.)",
             indent=" ",
         )
     return result
@@ -1568,7 +1569,7 @@ def _check_FJR_gurobi(profile, committee, quota):
         T = [c for c in profile.candidates if set_of_candidates[c].Xn > 0.9]
         detailed_information = {
             "ell": len(T),
-            "beta": beta.Xn,
+            "beta": round(beta.Xn),
             "joint_candidates": T,
             "cohesive_group": [i for i in range(len(profile)) if set_of_voters[i].Xn > 0.9],
         }
-- 
2.43.0


From 10552fc58f3d11798cc4f0c449d87a5495364f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:29 +0000
Subject: [PATCH 32/36] Revert "fix: correct description of starting loads in
 log messages of Equal Shares"

This reverts commit f470b39a7e75a76099721e2b9194e295142c163e.
---
 abcvoting/abcrules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abcvoting/abcrules.py b/abcvoting/abcrules.py
index 43317e7..3826704 100644
--- a/abcvoting/abcrules.py
+++ b/abcvoting/abcrules.py
@@ -3195,7 +3195,7 @@ def compute_equal_shares(
         if detailed_info["phragmen_start_load"]:  # the second phase (seq-Phragmen) was used
             phragmen_start_load = detailed_info["phragmen_start_load"]
             output.details("Phase 2 (seq-Phragmén):\n")
-            output.details("starting loads (= remaining budget times -1, divided by weight):")
+            output.details("starting loads (= budget spent):")
             msg = "("
             for v, _ in enumerate(profile):
                 msg += str(phragmen_start_load[v]) + ", "
-- 
2.43.0


From adc680bb5223e0d9d3acbe7b195ae2fef16dbb21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:29 +0000
Subject: [PATCH 33/36] Revert "fix: log all tied candidates for reverse
 sequential Thiele methods"

This reverts commit 031729fbd51264d6dd7223bb3fb5b86a669365bf.
---
 abcvoting/abcrules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abcvoting/abcrules.py b/abcvoting/abcrules.py
index 3826704..d4ac322 100644
--- a/abcvoting/abcrules.py
+++ b/abcvoting/abcrules.py
@@ -1686,7 +1686,7 @@ def _revseq_thiele_resolute(scorefct_id, profile, committeesize):
             cand for cand in profile.candidates if marg_util_cand[cand] == min(marg_util_cand)
         ]
         next_cand = cands_to_remove[-1]
-        tied_cands = cands_to_remove
+        tied_cands = cands_to_remove[:-1]
         committee.remove(next_cand)
 
         detailed_info["next_cand"].append(next_cand)
-- 
2.43.0


From 3b59ae4a8fe8d2990e69de7e0bb96fc49c41f58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:51 +0000
Subject: [PATCH 34/36] =?UTF-8?q?fix:=20Phragm=C3=A9n=20optimisation=20rul?=
 =?UTF-8?q?es=20scale=20loads=20so=20that=20large=20electorates=20stay=20w?=
 =?UTF-8?q?ithin=20solver=20accuracy?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 abcvoting/abcrules_gurobi.py | 24 +++++++++++++++++++-----
 abcvoting/abcrules_mip.py    | 11 +++++++++--
 2 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/abcvoting/abcrules_gurobi.py b/abcvoting/abcrules_gurobi.py
index d074153..4edcbb2 100644
--- a/abcvoting/abcrules_gurobi.py
+++ b/abcvoting/abcrules_gurobi.py
@@ -377,6 +377,13 @@ def _gurobi_minimaxphragmen(profile, committeesize, resolute, max_num_of_committ
              second-, third-, ...-largest load
     """
 
+    # loads are scaled by the total weight; otherwise differences between loads can become smaller
+    # than the accuracy of the solver
+    total_weight = profile.total_weight()
+
+    def relative_weight(voter):
+        return float(voter.weight * len(profile) / total_weight)
+
     def set_opt_model_func(model, in_committee):
         load = {}
         for cand in profile.candidates:
@@ -397,11 +404,11 @@ def _gurobi_minimaxphragmen(profile, committeesize, resolute, max_num_of_committ
         for cand in profile.candidates:
             model.addConstr(
                 gb.quicksum(
-                    voter.weight * load[(voter, cand)]
+                    relative_weight(voter) * load[(voter, cand)]
                     for voter in profile
                     if cand in profile.candidates
                 )
-                >= in_committee[cand]
+                >= len(profile) * in_committee[cand]
             )
 
         loadbound = model.addVar(lb=0, name="loadbound")
@@ -447,6 +454,13 @@ def _gurobi_minimaxphragmen(profile, committeesize, resolute, max_num_of_committ
 
 
 def _gurobi_leximaxphragmen(profile, committeesize, resolute, max_num_of_committees):
+    # loads are scaled by the average weight; otherwise their differences can become smaller
+    # than the accuracy of the solver
+    total_weight = profile.total_weight()
+
+    def relative_weight(voter):
+        return float(voter.weight * len(profile) / total_weight)
+
     def set_opt_model_func(model, in_committee):
         load = {}
         loadbound_constraint = {}
@@ -482,7 +496,7 @@ def _gurobi_leximaxphragmen(profile, committeesize, resolute, max_num_of_committ
         for cand in profile.candidates:
             model.addConstr(
                 gb.quicksum(
-                    voter.weight * load[(voter, cand)]
+                    relative_weight(voter) * load[(voter, cand)]
                     for voter in profile
                     if cand in profile.candidates
                 )
@@ -534,8 +548,8 @@ def _gurobi_leximaxphragmen(profile, committeesize, resolute, max_num_of_committ
             )
         )
 
-    # no voter has to bear a larger load than this (weights can be smaller than 1)
-    max_load = committeesize / min(1.0, min(float(voter.weight) for voter in profile))
+    # no voter has to bear a larger load than this
+    max_load = committeesize / min(relative_weight(voter) for voter in profile)
 
     loadbounds = []
     for iteration in range(len(profile) - 1):
diff --git a/abcvoting/abcrules_mip.py b/abcvoting/abcrules_mip.py
index 029af15..728d540 100644
--- a/abcvoting/abcrules_mip.py
+++ b/abcvoting/abcrules_mip.py
@@ -318,6 +318,13 @@ def _mip_minimaxphragmen(profile, committeesize, resolute, max_num_of_committees
              second-, third-, ...-largest load
     """
 
+    # loads are scaled by the total weight; otherwise differences between loads can become smaller
+    # than the accuracy of the solver
+    total_weight = profile.total_weight()
+
+    def relative_weight(voter):
+        return float(voter.weight * len(profile) / total_weight)
+
     def set_opt_model_func(model, profile, in_committee, committeesize):
         load = {}
         for cand in profile.candidates:
@@ -338,11 +345,11 @@ def _mip_minimaxphragmen(profile, committeesize, resolute, max_num_of_committees
         for cand in profile.candidates:
             model += (
                 mip.xsum(
-                    voter.weight * load[(voter, cand)]
+                    relative_weight(voter) * load[(voter, cand)]
                     for voter in profile
                     if cand in profile.candidates
                 )
-                >= in_committee[cand]
+                >= len(profile) * in_committee[cand]
             )
 
         loadbound = model.add_var(lb=0, var_type=mip.CONTINUOUS, name="loadbound")
-- 
2.43.0


From f1002af5e0d1804e01d94f9b115a570796d8ce1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:34 +0000
Subject: [PATCH 35/36] fix: branch-and-bound for Thiele methods uses valid
 bounds for score functions that are not decreasing

---
 abcvoting/abcrules.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/abcvoting/abcrules.py b/abcvoting/abcrules.py
index d4ac322..6fd16cd 100644
--- a/abcvoting/abcrules.py
+++ b/abcvoting/abcrules.py
@@ -777,6 +777,11 @@ def _thiele_methods_branchandbound(
     Branch-and-bound algorithm for Thiele methods.
     """
     marginal_scorefct = scores.get_marginal_scorefct(scorefct_id, committeesize)
+    # upper bounds for marginal scores that also hold if the score function is not decreasing
+    max_marginal_score = [
+        max(marginal_scorefct(y) for y in range(x, committeesize + 1))
+        for x in range(committeesize + 1)
+    ]
 
     best_committees = []
     init_com, _ = _seq_thiele_resolute(scorefct_id, profile, committeesize)
@@ -801,7 +806,7 @@ def _thiele_methods_branchandbound(
                 largest_cand = -1
             missing = committeesize - len(part_com)
             marg_util_cand = scores.marginal_thiele_scores_add(
-                marginal_scorefct, profile, part_com
+                max_marginal_score.__getitem__, profile, part_com
             )
             upper_bound = sum(
                 sorted(marg_util_cand[largest_cand + 1 :])[-missing:]
-- 
2.43.0


From 0fbeed2dade1b4254ab7185e6d91d62ec1013705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:34 +0000
Subject: [PATCH 36/36] fix: maximin support explores tied candidates in index
 order also for large candidate indices

---
 abcvoting/abcrules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abcvoting/abcrules.py b/abcvoting/abcrules.py
index 6fd16cd..3b1b1e6 100644
--- a/abcvoting/abcrules.py
+++ b/abcvoting/abcrules.py
@@ -3883,7 +3883,7 @@ def _maximin_support_irresolute(scorefct, profile, committeesize, max_num_of_com
         additional_score_cand = scorefct(profile, committee)
         remaining_cands = set(profile.candidates) - set(committee)
         highest_score = max(additional_score_cand[cand] for cand in remaining_cands)
-        for cand in remaining_cands:
+        for cand in sorted(remaining_cands):  # tiebreaking by index
             if additional_score_cand[cand] >= highest_score - 1e-7:  # ILP float accuracy
                 new_committee = committee + (cand,)
 
-- 
2.43.0

