From e6c1f79514fe4aa508d5dae32dcbc7602b459b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:54 +0000
Subject: [PATCH 01/23] fix: peak time range of a use case whose theoretical
 peak lasts a single minute

---
 ramp/core/core.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 1578c93..9c852a6 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -363,9 +363,7 @@ class UseCase:
         for user in self.users:
             tot_max_profile = tot_max_profile + user.maximum_profile
         # Find the peak window within the theoretical max profile
-        peak_window = np.squeeze(
-            np.argwhere(tot_max_profile == np.amax(tot_max_profile))
-        )
+        peak_window = np.flatnonzero(tot_max_profile == np.amax(tot_max_profile))
         # Within the peak_window, randomly calculate the peak_time using a gaussian distribution
         peak_time = round(
             random.normalvariate(
-- 
2.43.0


From 432d4dce1912f607dc99d04c3c31e1fd71c75d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:54 +0000
Subject: [PATCH 02/23] fix: randomised window of use never ends before it
 starts

---
 ramp/core/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 9c852a6..f93f452 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -1580,6 +1580,9 @@ class Appliance:
             rand_window[0] = window_range_limits[0]
         if rand_window[1] > window_range_limits[1]:
             rand_window[1] = window_range_limits[1]
+        if rand_window[1] < rand_window[0]:
+            # a window cannot end before it starts
+            rand_window[1] = rand_window[0]
 
         return rand_window
 
-- 
2.43.0


From 43107c72bda8f3841665dcdc4dfb074751ffb82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:54 +0000
Subject: [PATCH 03/23] fix: undeclared duty cycle windows do not capture
 switch-on events at midnight

---
 ramp/core/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ramp/core/utils.py b/ramp/core/utils.py
index cac6936..e596e43 100644
--- a/ramp/core/utils.py
+++ b/ramp/core/utils.py
@@ -146,6 +146,9 @@ def range_within_window(range_low, range_high, window):
     higher than the highest window value
 
     """
+    if window[0] == window[1]:
+        # an empty window (e.g. the default [0, 0] of an undeclared duty cycle) overlaps nothing
+        return False
     return not (
         (range_low < window[0] and range_high < window[0])
         or (range_low > window[1] and range_high > window[1])
-- 
2.43.0


From 1385652b5aaf3ec7385f9bb12ca27a89ed99dcaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:54 +0000
Subject: [PATCH 04/23] fix: seed the generator before the first draw and
 accept 0 as a seed

---
 ramp/core/core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index f93f452..ebe9fd8 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -98,6 +98,10 @@ class UseCase:
         self.daily_profiles = None
         self.random_seed = random_seed
 
+        # Set global random seed if it is specified, before any random number is drawn
+        if self.random_seed is not None:
+            random.seed(self.random_seed)
+
         self.appliances = []
         self.users = []
         if users is None:
@@ -108,10 +112,6 @@ class UseCase:
         if self.date_start is not None and self.date_end is not None:
             self.initialize()
 
-        # Set global random seed if it is specified
-        if self.random_seed:
-            random.seed(self.random_seed)
-
     @property
     def date_start(self):
         """Start date of the daily profiles generated by the UseCase instance"""
-- 
2.43.0


From f3afedbab33e7ed283500b1e9e02685c18bbbb1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:13 +0000
Subject: [PATCH 05/23] fix: draw the daily preference of each single user in
 parallel processing

---
 ramp/core/core.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index ebe9fd8..b85ac9d 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -38,7 +38,9 @@ from ramp.errors_logs.errors import InvalidType, InvalidWindow
 
 
 def single_appliance_daily_load_profile(args):
-    app, args = args
+    app, rand_daily_pref, args = args
+    # preference drawn for the single user and day this profile belongs to
+    app.user.rand_daily_pref = rand_daily_pref
     app.generate_load_profile(*args, power=app.power[args[0]])
 
     return args[0], app.daily_use
@@ -478,10 +480,21 @@ class UseCase:
         for day_idx, day in enumerate(self.days):
             day_type = get_day_type(day)
             for user in self.users:
-                for app in user.App_list:
-                    for _ in range(user.num_users):
+                for _ in range(user.num_users):
+                    rand_daily_pref = (
+                        0
+                        if user.user_preference == 0
+                        else random.randint(1, user.user_preference)
+                    )
+                    for app in user.App_list:
                         t = t + 1
-                        tasks.append((app, (day_idx, self.peak_time_range, day_type)))
+                        tasks.append(
+                            (
+                                app,
+                                rand_daily_pref,
+                                (day_idx, self.peak_time_range, day_type),
+                            )
+                        )
 
         daily_profiles_dict = {}
         timeout = 1
-- 
2.43.0


From 8a684c22afd30674a26d5f8988144cda344ef483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:13 +0000
Subject: [PATCH 06/23] fix: saving a power series whose first and last values
 are equal

---
 ramp/core/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index b85ac9d..00b83c0 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -1265,7 +1265,7 @@ class Appliance:
                     dm[attribute + "_end"] = window_value[1]
                 elif attribute == "power":
                     power_values = getattr(self, attribute)
-                    if np.diff(power_values).sum() == 0:
+                    if np.all(np.diff(power_values) == 0):
                         power_values = power_values[0]
                     else:
                         power_values = power_values.tolist()
@@ -1282,7 +1282,7 @@ class Appliance:
                         dm[attribute + "_end"] = window_value[1]
                     elif old_attribute == "POWER":
                         power_values = getattr(self, old_attribute)
-                        if np.diff(power_values).sum() == 0:
+                        if np.all(np.diff(power_values) == 0):
                             power_values = power_values[0]
                         else:
                             power_values = power_values.tolist()
-- 
2.43.0


From 724fb05310101c8dcbc068c046ad15e77acd0cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:13 +0000
Subject: [PATCH 07/23] fix: read the values, not the timestamps, of a
 two-column power series

---
 ramp/core/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 00b83c0..3e9253e 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -1179,7 +1179,8 @@ class Appliance:
             power = power.values[:, 0]
 
         elif isinstance(power, str):
-            power = pd.read_json(power).values[:, 0]
+            # the values are in the last column (the first one holds timestamps if there are two)
+            power = pd.read_json(power).iloc[:, -1].to_numpy()
 
         elif isinstance(power, (float, int)):
             power = power * np.ones(self.user.num_days + 1)
-- 
2.43.0


From a95fcd9b78fb7358a75aea07feeacb3ec1d9034c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:13 +0000
Subject: [PATCH 08/23] fix: theoretical maximum profile does not depend on the
 profiles generated before

---
 ramp/core/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 3e9253e..d968fab 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -1610,7 +1610,10 @@ class Appliance:
             It assumes the appliance is always switched-on with maximum power and
             numerosity during all of its potential windows of use
         """
-        return self.daily_use * np.mean(self.power) * self.number
+        windows_of_use = np.zeros(1440)
+        for window in (self.window_1, self.window_2, self.window_3):
+            windows_of_use[window[0] : window[1]] = 0.001
+        return windows_of_use * np.mean(self.power) * self.number
 
     def specific_cycle(self, cycle_num, **kwargs):
         """assigining specific duty cycle for the appliance (maximum of three cycles can be assigned)
-- 
2.43.0


From bb69222697be9bdbf975ca16cbf8d290017de8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:13 +0000
Subject: [PATCH 09/23] fix: compare appliances whose power series have
 different lengths

---
 ramp/core/core.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index d968fab..5acd205 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -1331,7 +1331,12 @@ class Appliance:
             if hasattr(self, attribute) and hasattr(other_appliance, attribute):
                 answer = np.append(
                     answer,
-                    [getattr(self, attribute) == getattr(other_appliance, attribute)],
+                    [
+                        np.array_equal(
+                            getattr(self, attribute),
+                            getattr(other_appliance, attribute),
+                        )
+                    ],
                 )
             elif (
                 hasattr(self, attribute) is False
-- 
2.43.0


From c506c09f95a055f65e1265b776fb4fb001ad2ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:13 +0000
Subject: [PATCH 10/23] fix: load the results saved to a csv file

---
 ramp/post_process/post_process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ramp/post_process/post_process.py b/ramp/post_process/post_process.py
index c0bf98d..01a6521 100644
--- a/ramp/post_process/post_process.py
+++ b/ramp/post_process/post_process.py
@@ -157,7 +157,7 @@ class Plot:
 
         if file.endswith(".csv"):
             df = pd.read_csv(
-                file, sheet_name=sheet_name, index_col=0, header=0, sep=sep
+                file, index_col=0, header=0, sep=sep, parse_dates=index is None
             )
 
         elif file.endswith(".xlsx"):
-- 
2.43.0


From 6ec9b5ac0d59b4c76724a181668f273c763873ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:13 +0000
Subject: [PATCH 11/23] fix: return the calibration parameters in the order in
 which they are read

---
 ramp/core/constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ramp/core/constants.py b/ramp/core/constants.py
index 846a8e9..776aed8 100644
--- a/ramp/core/constants.py
+++ b/ramp/core/constants.py
@@ -17,7 +17,7 @@ def switch_on_parameters():
     s_peak = 0.5  # standard deviation (as percentage of the median value) of the gaussian distribution [0,1] above mentioned
     op_factor = 0.5  # off-peak coincidence calculation parameter
 
-    return mu_peak, s_peak, op_factor
+    return s_peak, mu_peak, op_factor
 
 
 OLD_TO_NEW_MAPPING = {
-- 
2.43.0


From d30b8fe6b67aea676c188ac5c57c6cecd12c5001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:13 +0000
Subject: [PATCH 12/23] fix: check the power data of appliances added after the
 use case was created

---
 ramp/core/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 5acd205..7592507 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -305,6 +305,7 @@ class UseCase:
                 )
 
             # Verify that each appliance has long enough power data for the simulated time
+            self.collect_appliances_from_users()
             for app in self.appliances:
                 app.check_power_values(self.__num_days)
 
-- 
2.43.0


From 306aa2870d267b918735143772c456abda2e89b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:13 +0000
Subject: [PATCH 13/23] fix: take the users loaded after the initialization
 into account in the peak time range

---
 ramp/core/core.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 7592507..be000f2 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -656,6 +656,12 @@ class UseCase:
 
         self.collect_appliances_from_users()
 
+        if self.is_initialized is True:
+            # the loaded users were not known when the use case was initialized
+            for app in self.appliances:
+                app.check_power_values(self.num_days)
+            self.peak_time_range = self.calc_peak_time_range()
+
 
 class User:
     def __init__(
-- 
2.43.0


From a8d71cea9c51ae6e81b2e8849382ed73ea288c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:45 +0000
Subject: [PATCH 14/23] fix: read the values of a power series with full
 precision

---
 ramp/core/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index be000f2..433b42f 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -1187,7 +1187,7 @@ class Appliance:
 
         elif isinstance(power, str):
             # the values are in the last column (the first one holds timestamps if there are two)
-            power = pd.read_json(power).iloc[:, -1].to_numpy()
+            power = pd.read_json(power, precise_float=True).iloc[:, -1].to_numpy()
 
         elif isinstance(power, (float, int)):
             power = power * np.ones(self.user.num_days + 1)
-- 
2.43.0


From b1128c69fc23e59f76d142134fdcbc9873bc2a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:45 +0000
Subject: [PATCH 15/23] fix: blank cells of the input file mean the default
 value of the parameter

---
 ramp/core/core.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 433b42f..54a041f 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -611,16 +611,28 @@ class UseCase:
                 )
 
             # create user and add it to usecase
-            user = User(user_name, num_users, user_preference)
+            # (a blank cell means the default value of the parameter)
+            user_parameters = {}
+            if pd.notna(num_users):
+                user_parameters["num_users"] = int(num_users)
+            if pd.notna(user_preference):
+                user_parameters["user_preference"] = int(user_preference)
+            user = User(user_name, **user_parameters)
             self.add_user(user)
             # itereate through the lines of the DataFrame, each line representing one Appliance instance
             for row in user_df.loc[
                 :, ~user_df.columns.isin(["user_name", "num_users", "user_preference"])
             ].to_dict(orient="records"):
+                # whole numbers are read as floats in columns which contain blank cells
+                row = {
+                    k: int(v) if isinstance(v, float) and v.is_integer() else v
+                    for k, v in row.items()
+                }
                 # assign Appliance arguments
                 appliance_parameters = {}
                 for k in APPLIANCE_ARGS:
-                    if k in row:
+                    # a blank cell means the default value of the parameter
+                    if k in row and pd.notna(row[k]):
                         appliance_parameters[k] = row[k]
 
                 # assign windows arguments
-- 
2.43.0


From 5d4c5142b54c1270af3ee2b0d8a552c0ef7ea09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:26 +0000
Subject: [PATCH 16/23] fix: remove a one-minute event from the free time range
 it belongs to, not from the adjacent one

---
 ramp/core/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 54a041f..c339e53 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -1544,7 +1544,7 @@ class Appliance:
         # identify which of the unallocated time ranges contain the switch-on event
         spot_idx = None
         for i, fs in enumerate(self.free_spots):
-            if indexes[0] >= fs.start and indexes[-1] <= fs.stop:
+            if indexes[0] >= fs.start and indexes[-1] < fs.stop:
                 spot_idx = i
                 break
         if spot_idx is not None:
-- 
2.43.0


From eb66433e47f969f47543f7c3d08101e059ccfb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:28 +0000
Subject: [PATCH 17/23] fix: compare an added appliance with the listed ones
 once its duty cycles are declared

---
 ramp/core/core.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index c339e53..9c07f16 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -817,8 +817,9 @@ appliances: no appliances assigned to the user.
 
         app = Appliance(self, **kwargs)
 
+        # the appliance is compared with the ones already listed once it is completely declared
         if windows_args:
-            app.windows(**windows_args)
+            app._assign_windows(**windows_args)
         for i in duty_cycle_parameters:
             app.specific_cycle(i, **duty_cycle_parameters[i])
 
@@ -1419,6 +1420,16 @@ class Appliance:
             )
         """
 
+        self._assign_windows(window_1, window_2, random_var_w, window_3)
+
+        # automatically appends the appliance to the user's appliance list
+        self.user._add_appliance_instance(self)
+
+    def _assign_windows(
+        self, window_1=None, window_2=None, random_var_w=0, window_3=None
+    ):
+        """assigns functioning windows without adding the appliance to the user class"""
+
         if window_1 is None:
             warnings.warn(
                 UserWarning(
@@ -1476,9 +1487,6 @@ class Appliance:
             random_var_w * np.diff(self.window_3)[0]
         )  # same as above
 
-        # automatically appends the appliance to the user's appliance list
-        self.user._add_appliance_instance(self)
-
         if self.fixed_cycle == 1:
             self.cw11 = self.window_1
             self.cw12 = self.window_2
-- 
2.43.0


From 48daec5f6f178d10318dd309d0961eeb00c02ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:10 +0000
Subject: [PATCH 18/23] fix: refuse power series that are not 366 numbers, read
 quoted sheet names and all digits of two columns

---
 ramp/core/utils.py | 49 +++++++++++++++++++++++++++++++++-------------
 1 file changed, 35 insertions(+), 14 deletions(-)

diff --git a/ramp/core/utils.py b/ramp/core/utils.py
index e596e43..6dc68a9 100644
--- a/ramp/core/utils.py
+++ b/ramp/core/utils.py
@@ -18,6 +18,17 @@ POSSIBLE_FORMATS = """
 """
 
 
+def is_power_timeseries(ts):
+    """Check that ts is a list of 366 numbers, or of 366 rows of one (value) or two (timestamp and value) columns"""
+    if not isinstance(ts, list) or len(ts) != 366:
+        return False
+    columns = {len(row) if isinstance(row, list) else 0 for row in ts}
+    if columns not in ({0}, {1}, {2}):
+        return False
+    values = [row[-1] if isinstance(row, list) else row for row in ts]
+    return all(type(val) in (int, float) and abs(val) < np.inf for val in values)
+
+
 def read_input_file(filename):
     """Parse a RAMP .xlsx input file"""
 
@@ -36,25 +47,35 @@ def read_input_file(filename):
             # the timeseries is provided as a range of values in the spreadsheet
             if "=" in v:
                 ts_sheet_name, ts_range = v.replace("=", "").split("!")
+                # the name of a sheet with spaces or special characters is quoted
+                if ts_sheet_name.startswith("'"):
+                    ts_sheet_name = ts_sheet_name[1:-1].replace("''", "'")
+                if ts_sheet_name not in sheet_names:
+                    raise (
+                        ValueError(
+                            f"The sheet '{ts_sheet_name}' provided for the power timeseries of the appliance '{appliance_name}' of user '{user_name}' does not exist in '{filename}'\n{POSSIBLE_FORMATS}"
+                        )
+                    )
                 cr = CellRange(ts_range)
                 if cr.size["columns"] == 1:
                     ts = json.dumps(
                         [
                             wb[ts_sheet_name].cell(row=c[0], column=c[1]).value
                             for c in cr.cells
-                        ]
+                        ],
+                        default=str,
                     )
                 elif cr.size["columns"] == 2:
-                    ts = pd.DataFrame(
+                    ts = json.dumps(
                         [
                             [
                                 wb[ts_sheet_name].cell(row=c[0], column=c[1]).value
-                                for c in col
+                                for c in row
                             ]
-                            for col in cr.cols
-                        ]
-                    ).T
-                    ts = ts.to_json(orient="values")
+                            for row in cr.rows
+                        ],
+                        default=str,
+                    )
                 else:
                     raise (
                         ValueError(
@@ -70,13 +91,7 @@ def read_input_file(filename):
             # the timeseries is expected as an array in json format
             else:
                 try:
-                    ts = json.loads(v)
-                    if len(ts) != 366:
-                        raise (
-                            ValueError(
-                                f"The provided power timeseries of the appliance '{appliance_name}' of user '{user_name}' in '{filename}' does not contain 366 values as expected\n{POSSIBLE_FORMATS}"
-                            )
-                        )
+                    json.loads(v)
                     ts = v
                 except json.JSONDecodeError:
                     raise (
@@ -84,6 +99,12 @@ def read_input_file(filename):
                             f"Could not parse the power timeseries provided for appliance '{appliance_name}' of user '{user_name}' in '{filename}'\n{POSSIBLE_FORMATS}"
                         )
                     )
+            if not is_power_timeseries(json.loads(ts)):
+                raise (
+                    ValueError(
+                        f"The provided power timeseries of the appliance '{appliance_name}' of user '{user_name}' in '{filename}' does not contain 366 values as expected\n{POSSIBLE_FORMATS}"
+                    )
+                )
             df.loc[i, "power"] = ts
             df.loc[i, "p_series"] = True
     return df
-- 
2.43.0


From 0d00b728a517ea0c641fb6ab8d1e3be7f8c18a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:02 +0000
Subject: [PATCH 19/23] fix: monthly files are sorted by the number in their
 name, not by digits of the folder path

---
 ramp/cli.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ramp/cli.py b/ramp/cli.py
index 394f238..1cf770b 100644
--- a/ramp/cli.py
+++ b/ramp/cli.py
@@ -126,7 +126,11 @@ def main():
                     for f in os.listdir(fnames[0])
                     if f.endswith(ext)
                 ]
-                fnames.sort(key=lambda f: int("".join(filter(str.isdigit, f))))
+                fnames.sort(
+                    key=lambda f: int(
+                        "".join(filter(str.isdigit, os.path.basename(f)))
+                    )
+                )
 
                 if len(fnames) == 12:
                     print(
-- 
2.43.0


From 0bd731005a510114b553929d577d959d5d652330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:02 +0000
Subject: [PATCH 20/23] fix: monthly input files are simulated for each day of
 their month when -n is given

---
 ramp/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ramp/cli.py b/ramp/cli.py
index 1cf770b..2efd79b 100644
--- a/ramp/cli.py
+++ b/ramp/cli.py
@@ -191,7 +191,7 @@ def main():
                 month_profiles = run_usecase(
                     fname=fname,
                     ofname=None,
-                    num_days=num_days[i],
+                    num_days=None,
                     date_start=month_start,
                     date_end=month_end,
                     plot=False,
-- 
2.43.0


From b866852a8e015da03831ad6f95c848daa9fd9427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:02 +0000
Subject: [PATCH 21/23] fix: several output paths for the one yearly profile
 are refused instead of ignored

---
 ramp/cli.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ramp/cli.py b/ramp/cli.py
index 2efd79b..cefc039 100644
--- a/ramp/cli.py
+++ b/ramp/cli.py
@@ -182,6 +182,10 @@ def main():
                     parallel=parallel_processing,
                 )
         else:
+            if len(ofnames) != 1:
+                raise ValueError(
+                    f"Only one output path can be provided for the yearly profile, you provided {len(ofnames)}"
+                )
             year_profile = []
             for i, fname in enumerate(fnames):
                 month_start = datetime.date(year, i + 1, 1)
-- 
2.43.0


From c51fb54f225679372943a1aa790e85107c54c3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:02 +0000
Subject: [PATCH 22/23] fix: the parallel mode gives a zero load instead of a
 KeyError when there is no appliance to simulate

---
 ramp/core/core.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index 9c07f16..d46908d 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -519,9 +519,11 @@ class UseCase:
             daily_profiles = np.zeros((self.num_days, 1440))
 
             for day_idx in range(self.num_days):
-                daily_profiles[day_idx, :] = np.vstack(
-                    daily_profiles_dict[day_idx]
-                ).sum(axis=0)
+                # without any appliance to simulate the load of the day is zero
+                if day_idx in daily_profiles_dict:
+                    daily_profiles[day_idx, :] = np.vstack(
+                        daily_profiles_dict[day_idx]
+                    ).sum(axis=0)
 
         if flat is True:
             answer = daily_profiles.reshape(1, self.num_days * 1440).squeeze()
-- 
2.43.0


From ef1ccc9efe1d52a1dee51843d9e59d8dc83685a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:20 +0000
Subject: [PATCH 23/23] fix: a forced reinitialisation takes the days between
 the dates, not the number of days of the previous one

---
 ramp/core/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ramp/core/core.py b/ramp/core/core.py
index d46908d..9d668d3 100644
--- a/ramp/core/core.py
+++ b/ramp/core/core.py
@@ -234,6 +234,9 @@ class UseCase:
                     f"The usecase '{self.name}' is already initialized but argument `force=True` was provided, reinitializing..."
                 )
                 self.days = None
+                if self.date_start is not None and self.date_end is not None:
+                    # the number of days follows from the dates, which might have changed
+                    self.__num_days = None
 
             if num_days is not None:
                 self.__num_days = num_days
-- 
2.43.0

