From 8491851ef310068540b2c7f8388bbfa6a0970c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:21 +0000
Subject: [PATCH 01/25] fix: fraction of a second in GPS clock times (0.20 s
 was read as 0.02 s)

---
 shipgrav/io.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/shipgrav/io.py b/shipgrav/io.py
index 4d16fab..cc42499 100644
--- a/shipgrav/io.py
+++ b/shipgrav/io.py
@@ -166,9 +166,9 @@ def _clock_time(allnav, talker):
             post = post[1:]
         hour[i] = int(post[0][:2])   # hour
         mint[i] = int(post[0][2:4])  # min
-        sec0 = float(post[0][4:])  # sec.msec
-        msec[i] = int(int(str(sec0).split('.')[-1])*1e4)  # msec
-        sec[i] = int(str(sec0).split('.')[0])  # sec
+        sec0 = post[0][4:].partition('.')  # sec.msec
+        msec[i] = int((sec0[2]+'000000')[:6])  # fraction as microseconds
+        sec[i] = int(sec0[0])  # sec
 
     return hour, mint, sec, msec
 
-- 
2.43.0


From 075e33a2373e919955d7aaaf69f60d9e1ca74fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:54 +0000
Subject: [PATCH 02/25] fix: date of GPS times that straddle the logger's
 midnight (off by 24 hours)

---
 shipgrav/io.py | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/shipgrav/io.py b/shipgrav/io.py
index cc42499..55af178 100644
--- a/shipgrav/io.py
+++ b/shipgrav/io.py
@@ -1,7 +1,7 @@
 import mmap
 import os
 import re
-from datetime import datetime, timezone
+from datetime import datetime, timedelta, timezone
 
 import numpy as np
 import pandas as pd
@@ -173,6 +173,25 @@ def _clock_time(allnav, talker):
     return hour, mint, sec, msec
 
 
+def _nearest_day(stamp, logged):
+    """Shift a GPS clock time by a day if its date is from the other side of midnight.
+
+    The GPS clock and the clock of the logger that supplies the date do not
+    roll over at the same instant. If the text with the logger's date does not
+    have a time of day in it, the timestamp is returned as it is.
+    """
+    tod = re.search(r'(\d{2}):(\d{2}):(\d{2})', logged)
+    if tod is None:
+        return stamp
+    logsec = int(tod[1])*3600 + int(tod[2])*60 + int(tod[3])
+    gpssec = stamp.hour*3600 + stamp.minute*60 + stamp.second
+    if gpssec - logsec > 43200:
+        return stamp - timedelta(days=1)
+    elif logsec - gpssec > 43200:
+        return stamp + timedelta(days=1)
+    return stamp
+
+
 def _navdate_Atlantis(allnav, talker):
     """Extract datetime info from Atlantis nav files (at*.GPS).
     """
@@ -192,6 +211,7 @@ def _navdate_Atlantis(allnav, talker):
         day = int(date[2])  # day
         timest[i] = datetime(year, mon, day, hour[i], mint[i],
                              sec[i], msec[i], tzinfo=timezone.utc)
+        timest[i] = _nearest_day(timest[i], pre)
     return timest
 
 
@@ -217,6 +237,7 @@ def _navdate_NBP(allnav, talker):
                                        mint[i], sec[i], msec[i]),
                                       '%Y-%j-%H:%M:%S:%f')
         timest[i] = timest[i].replace(tzinfo=timezone.utc)
+        timest[i] = _nearest_day(timest[i], pre.partition('+')[2].partition(':')[2])
     return timest
 
 
@@ -239,6 +260,7 @@ def _navdate_Thompson(allnav, talker):
         day = int(date[1])
         timest[i] = datetime(year, mon, day, hour[i],
                              mint[i], sec[i], tzinfo=timezone.utc)
+        timest[i] = _nearest_day(timest[i], pre)
     return timest
 
 
@@ -271,6 +293,7 @@ def _navdate_Revelle(allnav, talker):
                 day = int(date[2])
                 timest[i] = datetime(
                     year, mon, day, hour[i], mint[i], sec[i], msec[i], tzinfo=timezone.utc)
+                timest[i] = _nearest_day(timest[i], before)
                 break  # skip the rest of the stepping backwards once date is found
     return timest
 
-- 
2.43.0


From e99d09ba9968de7bd232f5143b7c4988e6013d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:14 +0000
Subject: [PATCH 03/25] fix: read_nav failed on every trackline with a
 longitude jump

---
 shipgrav/io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/shipgrav/io.py b/shipgrav/io.py
index 55af178..94cf3fc 100644
--- a/shipgrav/io.py
+++ b/shipgrav/io.py
@@ -378,7 +378,7 @@ def _clean_180cross(gps_nav):
     lpos = gps_nav['lon'].values > 0
     lneg = gps_nav['lon'].values < 0
 
-    newlon = gps_nav['lon'].values
+    newlon = gps_nav['lon'].to_numpy(copy=True)
 
     if sum(lpos) > sum(lneg):
         newlon[lneg] = 180 + newlon[lneg] % 180
@@ -394,7 +394,7 @@ def _clean_180cross(gps_nav):
             # ad hoc duplication, not great
             newlon[i+1] = (newlon[i] + newlon[i+2])/2
 
-    gps_nav = gps_nav.replace({'lon': newlon})
+    gps_nav['lon'] = newlon
 
     return gps_nav
 
-- 
2.43.0


From 95c2558cd5832b1f4b007de9e6d3f21e0335ba54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:17 +0000
Subject: [PATCH 04/25] fix: longitudes of good fixes were changed next to gaps
 in nav data

---
 shipgrav/io.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/shipgrav/io.py b/shipgrav/io.py
index 94cf3fc..40aee6e 100644
--- a/shipgrav/io.py
+++ b/shipgrav/io.py
@@ -380,17 +380,18 @@ def _clean_180cross(gps_nav):
 
     newlon = gps_nav['lon'].to_numpy(copy=True)
 
-    if sum(lpos) > sum(lneg):
-        newlon[lneg] = 180 + newlon[lneg] % 180
-    else:
-        newlon[lpos] = -180 + newlon[lpos] % -180
+    # a jump of a few degrees is a gap in the data, not a crossing
+    if np.any(abs(np.diff(newlon)) > 180):
+        if sum(lpos) > sum(lneg):
+            newlon[lneg] = 180 + newlon[lneg] % 180
+        else:
+            newlon[lpos] = -180 + newlon[lpos] % -180
 
     # check if there are still some jumpy points (from between +/- reversals)
     ilocs = np.where(abs(np.diff(newlon)) > 1)[0]  # should not jump a degree
-    if len(ilocs) % 2 != 0:  # these are not paired, so one must be an end?
-        pass
-    else:  # pairs of indices for jump out and back
-        for i in ilocs[::2]:  # assume nice pairwise
+    for i in ilocs[:-1]:
+        # only single points that jump out and back, the rest are gaps
+        if i+1 in ilocs and abs(newlon[i+2] - newlon[i]) < 1:
             # ad hoc duplication, not great
             newlon[i+1] = (newlon[i] + newlon[i+2])/2
 
-- 
2.43.0


From 3efb9045f2c99c0a8ba544f16a6776f82fd7880c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:20 +0000
Subject: [PATCH 05/25] fix: dateline crossing was missed when nav dropped out
 at the crossing

---
 shipgrav/io.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/shipgrav/io.py b/shipgrav/io.py
index 40aee6e..fc2abfb 100644
--- a/shipgrav/io.py
+++ b/shipgrav/io.py
@@ -139,7 +139,7 @@ def read_nav(ship, pathlist, sampling=1, talker=None, ship_function=None, decima
                                  dtype=datetime)
 
     # check if we have probable longitude jumps, try to fix them
-    ilocs = np.where(abs(np.diff(gps_nav['lon'])) > 1)[0]
+    ilocs = np.where(abs(np.diff(gps_nav['lon'].dropna())) > 1)[0]
     if len(ilocs) > 0:
         # try to get rid of +- jumps (NBP, often)
         gps_nav = _clean_180cross(gps_nav)
@@ -378,10 +378,11 @@ def _clean_180cross(gps_nav):
     lpos = gps_nav['lon'].values > 0
     lneg = gps_nav['lon'].values < 0
 
+    gap = np.isnan(gps_nav['lon'].values)  # nav dropped out
     newlon = gps_nav['lon'].to_numpy(copy=True)
 
     # a jump of a few degrees is a gap in the data, not a crossing
-    if np.any(abs(np.diff(newlon)) > 180):
+    if np.any(abs(np.diff(newlon[~gap])) > 180):
         if sum(lpos) > sum(lneg):
             newlon[lneg] = 180 + newlon[lneg] % 180
         else:
-- 
2.43.0


From 7181bd70a3a19a728a424686825a5434746940d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:43 +0000
Subject: [PATCH 06/25] fix: nav strings without a hemisphere were read as
 north/east

---
 shipgrav/io.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/shipgrav/io.py b/shipgrav/io.py
index fc2abfb..90dc9bb 100644
--- a/shipgrav/io.py
+++ b/shipgrav/io.py
@@ -358,6 +358,8 @@ def _navcoords(allnav, talker):
             post = post[1:]  # correct for spacing in some files
         if post[1] == '' or post[3] == '':  # no coords, nav dropped out?
             lat[i] = np.nan; lon[i] = np.nan
+        elif post[2] not in ('N', 'S') or post[4] not in ('E', 'W'):  # hemisphere unknown
+            lat[i] = np.nan; lon[i] = np.nan
         else:
             lat[i] = int(post[1][:2]) + float(post[1][2:]) / \
                 60  # convert to decimal degrees
-- 
2.43.0


From 6eb5cb0216ce6e24edc48871937738eacbd481b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:45 +0000
Subject: [PATCH 07/25] fix: read_other_stuff dropped the last line of the data
 file

---
 shipgrav/io.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/shipgrav/io.py b/shipgrav/io.py
index 90dc9bb..dcbce4a 100644
--- a/shipgrav/io.py
+++ b/shipgrav/io.py
@@ -850,11 +850,10 @@ def read_other_stuff(yaml_file, data_file, tag):
     lines = []
     s.seek(0)
     # get line, bytes->string, strip \r\n from end
-    ln = s.readline().decode('ascii').rstrip()
-    while s.tell() < s.size():  # when s.tell() == s.size(), we got to the end of the file
+    for ln in iter(s.readline, b''):  # empty when we got to the end of the file
+        ln = ln.decode('ascii').rstrip()
         if tag in ln:
             lines.append(ln)
-        ln = s.readline().decode('ascii').rstrip()  # next!
 
     # split the lines at the tag, and then after the tag (fields named in yaml are post-tag)
     # split into pre-tag (might be '') and post-tag
-- 
2.43.0


From 5e07ace2536470242e56c1351c492b4a90f5dc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:47 +0000
Subject: [PATCH 08/25] fix: interrupts and failed allocations were taken for
 unparseable fields

---
 shipgrav/io.py    | 4 ++--
 shipgrav/utils.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/shipgrav/io.py b/shipgrav/io.py
index dcbce4a..17ea27c 100644
--- a/shipgrav/io.py
+++ b/shipgrav/io.py
@@ -756,7 +756,7 @@ def _dgs_raw_general(path):
         try:
             times = [e.split(' ')[0] for e in dat['string'].values]
             dat['date_time'] = pd.to_datetime(times, format='ISO8601')
-        except:
+        except (ValueError, TypeError, AttributeError):
             print('raw (serial) timestamps not found/converted')
             pass  # if it doesn't work, oh well
 
@@ -881,7 +881,7 @@ def read_other_stuff(yaml_file, data_file, tag):
     def numeric(col):
         try:
             return pd.to_numeric(col)
-        except:
+        except (ValueError, TypeError):
             return col
 
     for ckey in df.columns:     # to_numeric by column so errors for datetimes are skipped
diff --git a/shipgrav/utils.py b/shipgrav/utils.py
index 46b5322..b179a3a 100644
--- a/shipgrav/utils.py
+++ b/shipgrav/utils.py
@@ -163,7 +163,7 @@ def clean_ini_to_toml(ini_file):
             continue
         try:
             float(val)
-        except:
+        except ValueError:
             val = "\"" + val + "\""
             ln = '= '.join((ln.split('=')[0], val))
             if extra_comm != '':
-- 
2.43.0


From 06640f58dfd282119ad1fd5fb04ad806198a739b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:49 +0000
Subject: [PATCH 09/25] fix: cross-coupling fit ignored all data after the last
 time gap

---
 shipgrav/grav.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shipgrav/grav.py b/shipgrav/grav.py
index 7cc7ec9..132fdcc 100644
--- a/shipgrav/grav.py
+++ b/shipgrav/grav.py
@@ -371,7 +371,7 @@ def calc_cross_coupling_coefficients(faa_in, vcc_in, ve_in, al_in, ax_in, level_
         tdiff = np.diff(times)
         if np.any(tdiff > 5*samplerate):
             # 5 sec gap doesn't matter much I hope???
-            end_inds = np.where(tdiff > 5*samplerate)[0]
+            end_inds = np.append(np.where(tdiff > 5*samplerate)[0], len(faa_in))
 
     end_inds = np.append(-1, end_inds)  # add starting point
 
-- 
2.43.0


From 3af30816f7daf7be3122fca9db01bd3d05e86237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:23 +0000
Subject: [PATCH 10/25] fix: one cut-off record in a raw DGS file lost the
 timestamps of all others

---
 shipgrav/io.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/shipgrav/io.py b/shipgrav/io.py
index 17ea27c..b5af7a9 100644
--- a/shipgrav/io.py
+++ b/shipgrav/io.py
@@ -753,12 +753,13 @@ def _dgs_raw_general(path):
     # special case of not synced for timestamp, but stamp might be in string elsewhere
     if not conv_times and not dat.iloc[0]['string'].startswith('$'):
         # split string for possible timestamp
-        try:
-            times = [e.split(' ')[0] for e in dat['string'].values]
-            dat['date_time'] = pd.to_datetime(times, format='ISO8601')
-        except (ValueError, TypeError, AttributeError):
+        times = [str(e).split(' ')[0] for e in dat['string'].values]
+        # a record that is cut short (eg the last one) should not spoil the others
+        stamps = pd.to_datetime(times, format='ISO8601', utc=True, errors='coerce')
+        if stamps.isna().all():
             print('raw (serial) timestamps not found/converted')
-            pass  # if it doesn't work, oh well
+        else:
+            dat['date_time'] = stamps
 
     return dat
 
-- 
2.43.0


From 1358f969e1795094202164937c7db85eb1e02040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:25 +0000
Subject: [PATCH 11/25] fix: point picker raised or picked a wrong point on
 clicks outside of its axis

---
 shipgrav/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/shipgrav/utils.py b/shipgrav/utils.py
index b179a3a..8fa02a7 100644
--- a/shipgrav/utils.py
+++ b/shipgrav/utils.py
@@ -261,7 +261,7 @@ class _SnappingCursor:
             self.ax1.figure.canvas.draw()
 
     def on_mouse_click(self, event):
-        if event.button == 1:
+        if event.button == 1 and event.inaxes == self.ax1:
             x, y = event.xdata, event.ydata
             ind_x = np.argmin(abs(x - self.data['tsec']))
             self.x_seg.append(self.data.iloc[ind_x]['lon_new'])
@@ -269,7 +269,7 @@ class _SnappingCursor:
             self.i_seg.append(ind_x)
             self.scatters[0].update({'xdata': self.x_seg, 'ydata': self.y_seg})
 
-        if event.button == 3:  # pop the last element of the lists
+        if event.button == 3 and len(self.i_seg) > 0:  # pop the last element of the lists
             self.x_seg.pop()
             self.y_seg.pop()
             self.i_seg.pop()
-- 
2.43.0


From 345ae15bf7b74a823ebf1f691a4832193a383531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:54 +0000
Subject: [PATCH 12/25] fix: laptop file with damaged lines only spoiled the
 column types of all others

---
 shipgrav/io.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/shipgrav/io.py b/shipgrav/io.py
index b5af7a9..60b78c1 100644
--- a/shipgrav/io.py
+++ b/shipgrav/io.py
@@ -607,6 +607,8 @@ def read_dgs_laptop(fp, ship, ship_function=None, progressbar=True):
 
         dats.append(dat)  # append the DataFrame for this filepath
 
+    # files without any valid lines do not have proper column types, so leave them out
+    dats = [d for d in dats if len(d) > 0] or dats[:1]
     return pd.concat(dats, ignore_index=True)
 
 
-- 
2.43.0


From af12ee9452462a469bfc8f48488ae5061481a394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:51 +0000
Subject: [PATCH 13/25] fix: read_other_stuff put fields under the wrong names
 when the first was empty

The tag is also matched as a whole word, so that feeds whose names merely
contain it are not taken for it.
---
 shipgrav/io.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/shipgrav/io.py b/shipgrav/io.py
index 60b78c1..394f3a9 100644
--- a/shipgrav/io.py
+++ b/shipgrav/io.py
@@ -834,7 +834,7 @@ def read_other_stuff(yaml_file, data_file, tag):
 
     if tag.startswith('$'):
         tag = tag[1:]
-    dtag = '$' + tag
+    dtag = '$' + tag + ','  # the whole tag, not just the start of a longer one
 
     # read yaml, check that tag specs are in this file
     with open(yaml_file, 'r') as f:
@@ -846,7 +846,7 @@ def read_other_stuff(yaml_file, data_file, tag):
     # check to make sure tag appears in the data file
     with open(data_file, 'rb') as file:
         s = mmap.mmap(file.fileno(), 0, access=mmap.ACCESS_READ)
-        result = s.find(bytes(tag, 'ascii'))
+        result = s.find(bytes(dtag, 'ascii'))
     assert result != -1, '%s not in data file %s' % (tag, data_file)
 
     # checks done, read in all the lines for this feed
@@ -855,15 +855,15 @@ def read_other_stuff(yaml_file, data_file, tag):
     # get line, bytes->string, strip \r\n from end
     for ln in iter(s.readline, b''):  # empty when we got to the end of the file
         ln = ln.decode('ascii').rstrip()
-        if tag in ln:
+        if dtag in ln:
             lines.append(ln)
 
     # split the lines at the tag, and then after the tag (fields named in yaml are post-tag)
     # split into pre-tag (might be '') and post-tag
     tagsplit = [e.split(dtag) for e in lines]
     # tagjoin = [','.join(tagsplit[i][0].strip(),tagsplit[i][1].strip(',')) for i in range(len(tagsplit))]
-    named_fields = [tagsplit[i][1].strip(',').split(
-        ',') for i in range(len(tagsplit))]
+    # (fields can be empty, including the first and last ones)
+    named_fields = [tagsplit[i][1].split(',') for i in range(len(tagsplit))]
 
     # make a dataframe, using yaml and including any timestamp-like info that might be before the tag
     # Note that the format of the lines we're working with is usually some variation on:
-- 
2.43.0


From 26da3f5e7fcb741c03e9f5e743bbba3c66b5d79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:50 +0000
Subject: [PATCH 14/25] fix: one cut-off record could turn a whole column of
 numbers into text

---
 shipgrav/io.py | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/shipgrav/io.py b/shipgrav/io.py
index 394f3a9..93d037e 100644
--- a/shipgrav/io.py
+++ b/shipgrav/io.py
@@ -407,6 +407,28 @@ def _clean_180cross(gps_nav):
 ########################################################################
 
 
+def _numeric_columns(dat, skip=()):
+    """Make columns numeric even if the last record in a file is cut short.
+
+    If a file ends in the middle of a record, eg right after the minus sign of a
+    value, pandas takes all the values in that column for text.
+
+    :param dat: data as read from one file
+    :type dat: pd.DataFrame
+    :param skip: columns that are not supposed to be numeric
+    :type skip: list, optional
+
+    :return: (*pd.DataFrame*) the input, with columns converted in place
+    """
+    for col in dat.columns:
+        if col in skip or pd.api.types.is_numeric_dtype(dat[col]):
+            continue
+        vals = pd.to_numeric(dat[col], errors='coerce')
+        if not np.any(vals.isna()[:-1] & dat[col].notna()[:-1]):  # just the last one is not a number
+            dat[col] = vals
+    return dat
+
+
 def read_bgm_rgs(fp, ship, progressbar=True):
     """Read BGM gravity from RGS files.
 
@@ -434,6 +456,7 @@ def read_bgm_rgs(fp, ship, progressbar=True):
     for path in tqdm(fp, desc='reading RGS files', disable=not progressbar):
         dat = pd.read_csv(path, delimiter=' ', names=['date', 'time', 'grav', 'lat', 'lon'],
                           usecols=(1, 2, 3, 11, 12))
+        dat = _numeric_columns(dat, skip=['date', 'time'])
         dat['date_time'] = pd.to_datetime(dat.pop('date')+' '+dat.pop('time'),utc=True)
         dats.append(dat)
 
@@ -539,7 +562,7 @@ def _bgmserial_Langseth(path):
     def dtime(x): return (datetime.strptime(x,'%Y:%j:%H:%M:%S.%f').replace(tzinfo=timezone.utc))
     dat = pd.read_fwf(path, names=['date_time', 'counts'], usecols=(1,2),
                       converters={'counts': count,'date_time': dtime})
-    return dat
+    return _numeric_columns(dat, skip=['date_time'])
 
 
 def _despike_bgm_serial(dat, thresh=8000):
@@ -619,6 +642,7 @@ def _dgs_laptop_general(path):
                                                   'al', 'ax', 'lat', 'lon', 'year', 'month', 'day',
                                                   'hour', 'minute', 'second'],
                       usecols=(1, 2, 3, 6, 10, 11, 12, 13, 14, 15, 19, 20, 21, 22, 23, 24))
+    dat = _numeric_columns(dat)
     dat['date_time'] = pd.to_datetime(
         dat[['year', 'month', 'day', 'hour', 'minute', 'second']], utc=True)
     return dat
@@ -631,6 +655,7 @@ def _dgs_laptop_Sikuliaq(path):
                                               'al','ax','lat','lon','year','month','day',
                                               'hour','minute','second'],
                       usecols=(1,2,3,6,10,11,12,13,14,15,19,20,21,22,23,24))
+    dat = _numeric_columns(dat)
     dat['date_time'] = pd.to_datetime(dat[['year','month','day','hour','minute','second']],utc=True)
     return dat
 
@@ -641,6 +666,7 @@ def _dgs_laptop_Thompson(path):
     dat = pd.read_csv(path, delimiter=',', names=['date', 'time', 'rgrav', 've', 'vcc',
                                                   'al', 'ax', 'lat', 'lon'],
                       usecols=(0, 1, 3, 12, 13, 14, 15, 16, 17))
+    dat = _numeric_columns(dat, skip=['date', 'time'])
     dat['date_time'] = pd.to_datetime(dat.pop('date')+' '+dat.pop('time'),utc=True)
     return dat
 
@@ -742,6 +768,7 @@ def _dgs_raw_general(path):
                                                   'status', 'checksum', 'latitude',
                                                   'longitude', 'speed', 'course', 'timestamp'],
                       usecols=(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18))
+    dat = _numeric_columns(dat, skip=['string', 'timestamp'])
 
     conv_times = True  # assume column 18 is actually timestamps
     if str(dat.iloc[0].timestamp).startswith('1'):  # 1 Hz, 1 second
@@ -779,6 +806,7 @@ def _dgs_raw_Thompson(path):
                                                   'al', 'ax', 'status', 'checksum',
                                                   'latitude', 'longitude', 'speed', 'course'],
                       usecols=(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19))
+    dat = _numeric_columns(dat, skip=['date', 'time', 'string'])
     dat['stamps'] = [':'.join([e[1]['date'], e[1]['time']])
                      for e in dat.iterrows()]
     dat['date_time'] = pd.to_datetime(
-- 
2.43.0


From bf84261fd6fe93f54388fa2cf0702b4e840eca9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:26 +0000
Subject: [PATCH 15/25] fix: tide prediction took the hour of day from local
 clocks of aware timestamps

Timestamps in any zone but UTC gave the right julian century but the local
hour, so equal instants gave different tides.
---
 shipgrav/grav.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/shipgrav/grav.py b/shipgrav/grav.py
index 132fdcc..be9489e 100644
--- a/shipgrav/grav.py
+++ b/shipgrav/grav.py
@@ -33,6 +33,7 @@ def _convert_datetime_tidetime(timestamp):
     dt = timestamp - origin_time
     days = dt.days + dt.seconds/3600./24.
     julian_century = days/36525
+    timestamp = timestamp.astimezone(timezone.utc)  # hours of the day are UT hours
     julian_hour = (timestamp.hour + timestamp.minute /
                    60. + timestamp.second/3600.)
 
-- 
2.43.0


From f1ff25336b62125d13f0a4c1bd3ff8cbba3e96b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:17 +0000
Subject: [PATCH 16/25] fix: ini conversion changed // and tabs inside quoted
 strings

---
 shipgrav/utils.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/shipgrav/utils.py b/shipgrav/utils.py
index 8fa02a7..0735999 100644
--- a/shipgrav/utils.py
+++ b/shipgrav/utils.py
@@ -121,11 +121,9 @@ def clean_ini_to_toml(ini_file):
     with open(ini_file, 'r') as file:
         text = file.read()  # just read the whole thing
 
-    # fix comments (// to #)
-    text = re.sub('//', '#', text)
-
-    # clean out tabs
-    text = re.sub('\t', '  ', text)
+    # fix comments (// to #) and clean out tabs, but leave quoted strings alone
+    text = re.sub(r'"[^"\n]*"|//|\t',
+                  lambda m: {'//': '#', '\t': '  '}.get(m[0], m[0]), text)
 
     # fix TRUE and FALSE
     text = re.sub('TRUE', 'true', text)
-- 
2.43.0


From 84751747deedbc6cc9267b797fff1d778df6736d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:17 +0000
Subject: [PATCH 17/25] fix: ini conversion changed TRUE and FALSE inside names
 and strings

---
 shipgrav/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/shipgrav/utils.py b/shipgrav/utils.py
index 0735999..ede9a82 100644
--- a/shipgrav/utils.py
+++ b/shipgrav/utils.py
@@ -125,9 +125,9 @@ def clean_ini_to_toml(ini_file):
     text = re.sub(r'"[^"\n]*"|//|\t',
                   lambda m: {'//': '#', '\t': '  '}.get(m[0], m[0]), text)
 
-    # fix TRUE and FALSE
-    text = re.sub('TRUE', 'true', text)
-    text = re.sub('FALSE', 'false', text)
+    # fix TRUE and FALSE (whole values only, not parts of names or strings)
+    text = re.sub(r'(?m)^([^=\n]*= *)(TRUE|FALSE)(?= *(?:#|$))',
+                  lambda m: m[1] + m[2].lower(), text)
 
     text = re.sub('$', '', text)
 
-- 
2.43.0


From b9fc939a4fd00b2ff2826dcbee54480795f2c071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:17 +0000
Subject: [PATCH 18/25] fix: ini conversion cut text at = signs and left quotes
 and backslashes unescaped

---
 shipgrav/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/shipgrav/utils.py b/shipgrav/utils.py
index ede9a82..e89e918 100644
--- a/shipgrav/utils.py
+++ b/shipgrav/utils.py
@@ -144,7 +144,7 @@ def clean_ini_to_toml(ini_file):
             fo.write('\n')
             continue
 
-        val = ln.split('=')[1]  # get value from key=value pair
+        val = ln.split('=', 1)[1]  # get value from key=value pair
         extra_comm = ''
         if '#' in val:
             val = val.split('#')[0]
@@ -162,7 +162,7 @@ def clean_ini_to_toml(ini_file):
         try:
             float(val)
         except ValueError:
-            val = "\"" + val + "\""
+            val = "\"" + val.replace('\\', '\\\\').replace('"', '\\"') + "\""
             ln = '= '.join((ln.split('=')[0], val))
             if extra_comm != '':
                 ln = '   #'.join((ln, extra_comm))
-- 
2.43.0


From 2c8106c49e8b2c6456dfb78c7b8a9dfc962ea67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:17 +0000
Subject: [PATCH 19/25] fix: ini conversion wrote numbers like .5, 5. and 007
 that are not toml

---
 shipgrav/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/shipgrav/utils.py b/shipgrav/utils.py
index e89e918..e12bd14 100644
--- a/shipgrav/utils.py
+++ b/shipgrav/utils.py
@@ -160,7 +160,10 @@ def clean_ini_to_toml(ini_file):
             fo.write('\n')
             continue
         try:
-            float(val)
+            num = int(val) if re.fullmatch(r'[+-]?\d+', val) else float(val)
+            # rewrite numbers that are not toml as they stand (.5, 5., 007)
+            if not re.fullmatch(r'[+-]?(0|[1-9]\d*)(\.\d+)?([eE][+-]?\d+)?', val):
+                ln = '= '.join((ln.split('=')[0], repr(num)))
         except ValueError:
             val = "\"" + val.replace('\\', '\\\\').replace('"', '\\"') + "\""
             ln = '= '.join((ln.split('=')[0], val))
-- 
2.43.0


From 3773ccc7544327ce2b501a41dd6f3a03312f69dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:43 +0000
Subject: [PATCH 20/25] fix: center_diff and eotvos_full misread pandas Series
 (slices aligned by label)

---
 shipgrav/grav.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/shipgrav/grav.py b/shipgrav/grav.py
index be9489e..725cf83 100644
--- a/shipgrav/grav.py
+++ b/shipgrav/grav.py
@@ -230,8 +230,9 @@ def eotvos_full(lon, lat, ht, samp, a=6378137.0, b=6356752.3142):
     mps2mgal = 100000     # m/s/s to mgal
     ecc = (a-b)/a
 
-    latr = np.deg2rad(lat)
-    lonr = np.deg2rad(lon)
+    latr = np.deg2rad(np.asarray(lat))
+    lonr = np.deg2rad(np.asarray(lon))
+    ht = np.asarray(ht)
 
     # get time derivatives of position
     dlat = center_diff(latr, 1, samp)
@@ -467,6 +468,7 @@ def center_diff(y, n, samp):
 
     :return: 1st or 2nd order derivative of **y**
     """
+    y = np.asarray(y)  # slices of a Series would be aligned by label
     if n == 1:
         return (y[2:] - y[:-2])*(samp/2)
     elif n == 2:
-- 
2.43.0


From 92bf6b27783be00092b986cfabe348ab7279ba24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:43 +0000
Subject: [PATCH 21/25] fix: gaussian_filter took the samples of a Series by
 label instead of in order

---
 shipgrav/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/shipgrav/utils.py b/shipgrav/utils.py
index e12bd14..4aba906 100644
--- a/shipgrav/utils.py
+++ b/shipgrav/utils.py
@@ -25,6 +25,8 @@ def gaussian_filter(x, fl):
 
     coeffs = _gaussian_coeffs(fl)
 
+    x = np.asarray(x)  # samples in order, not by index label
+
     # set up ring buffer
     filt_len = len(coeffs)
     ring_buffer = np.zeros(filt_len)
-- 
2.43.0


From cfa29556c5dac07475fa2fe0d9090ef7908f3347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:36 +0000
Subject: [PATCH 22/25] fix: cross-coupling fit dropped the last sample of
 every stretch before a gap

---
 shipgrav/grav.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/shipgrav/grav.py b/shipgrav/grav.py
index 725cf83..9eacc62 100644
--- a/shipgrav/grav.py
+++ b/shipgrav/grav.py
@@ -367,13 +367,13 @@ def calc_cross_coupling_coefficients(faa_in, vcc_in, ve_in, al_in, ax_in, level_
         - **model** (*statsmodels.OLS*)- linear regression model
     """
 
-    end_inds = np.array([len(faa_in),])  # just the one
+    end_inds = np.array([len(faa_in)-1,])  # just the one
     if times is not None:  # supplied a vector of timestamps to go with everything else
         # split data into segments of continuous even sample rate
         tdiff = np.diff(times)
         if np.any(tdiff > 5*samplerate):
             # 5 sec gap doesn't matter much I hope???
-            end_inds = np.append(np.where(tdiff > 5*samplerate)[0], len(faa_in))
+            end_inds = np.append(np.where(tdiff > 5*samplerate)[0], len(faa_in)-1)
 
     end_inds = np.append(-1, end_inds)  # add starting point
 
@@ -385,12 +385,12 @@ def calc_cross_coupling_coefficients(faa_in, vcc_in, ve_in, al_in, ax_in, level_
     le_tf = np.array([])  # things to fit
 
     for i in range(1, len(end_inds)):  # loop continuous-time segments
-        faa = faa_in[end_inds[i-1]+1:end_inds[i]]
-        vcc = vcc_in[end_inds[i-1]+1:end_inds[i]]
-        ve = ve_in[end_inds[i-1]+1:end_inds[i]]
-        al = al_in[end_inds[i-1]+1:end_inds[i]]
-        ax = ax_in[end_inds[i-1]+1:end_inds[i]]
-        level = level_in[end_inds[i-1]+1:end_inds[i]]
+        faa = faa_in[end_inds[i-1]+1:end_inds[i]+1]
+        vcc = vcc_in[end_inds[i-1]+1:end_inds[i]+1]
+        ve = ve_in[end_inds[i-1]+1:end_inds[i]+1]
+        al = al_in[end_inds[i-1]+1:end_inds[i]+1]
+        ax = ax_in[end_inds[i-1]+1:end_inds[i]+1]
+        level = level_in[end_inds[i-1]+1:end_inds[i]+1]
         if len(faa) < 1000:
             continue  # no point for very short segments
         # double derivatives with taylor series
-- 
2.43.0


From 6336748d75a740e0d0ee012fe3badddfae62665e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:12 +0000
Subject: [PATCH 23/25] fix: missing timestamps again give an undefined tide
 instead of an error

---
 shipgrav/grav.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/shipgrav/grav.py b/shipgrav/grav.py
index 9eacc62..6efa251 100644
--- a/shipgrav/grav.py
+++ b/shipgrav/grav.py
@@ -33,9 +33,8 @@ def _convert_datetime_tidetime(timestamp):
     dt = timestamp - origin_time
     days = dt.days + dt.seconds/3600./24.
     julian_century = days/36525
-    timestamp = timestamp.astimezone(timezone.utc)  # hours of the day are UT hours
-    julian_hour = (timestamp.hour + timestamp.minute /
-                   60. + timestamp.second/3600.)
+    # hours of the day are UT hours, whatever the zone of the timestamp (origin is at noon)
+    julian_hour = (dt.seconds/3600. + 12) % 24
 
     return julian_century, julian_hour
 
-- 
2.43.0


From 2fe40991ca29e06cf9afc64eda2c8e492cef1ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:13 +0000
Subject: [PATCH 24/25] fix: read all digits of fractional seconds in Ride and
 Sikuliaq GPGGA stamps

The fraction went through a float and was cut, so that .2618 s came back
as 0.261799 s.
---
 shipgrav/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shipgrav/io.py b/shipgrav/io.py
index 93d037e..740d0c6 100644
--- a/shipgrav/io.py
+++ b/shipgrav/io.py
@@ -323,7 +323,7 @@ def _navdate_Ride(allnav, talker):
             hour = int(date[3])
             mint = int(date[4])
             sec = int(date[5])
-            msec = int(float('.'+date[6])*1e6)
+            msec = int((date[6]+'000000')[:6])  # fraction as microseconds
             timest[i] = datetime(year, mon, day, hour, mint,
                                  sec, msec, tzinfo=timezone.utc)
     return timest
-- 
2.43.0


From cc1d826b54c1b80e66eb900e636270d7439e4d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:56 +0000
Subject: [PATCH 25/25] fix: ini values like 12_34 are names, not numbers

---
 shipgrav/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/shipgrav/utils.py b/shipgrav/utils.py
index 4aba906..eef6ee8 100644
--- a/shipgrav/utils.py
+++ b/shipgrav/utils.py
@@ -162,6 +162,8 @@ def clean_ini_to_toml(ini_file):
             fo.write('\n')
             continue
         try:
+            if '_' in val:
+                raise ValueError  # python takes 12_34 for a number, but it is a name
             num = int(val) if re.fullmatch(r'[+-]?\d+', val) else float(val)
             # rewrite numbers that are not toml as they stand (.5, 5., 007)
             if not re.fullmatch(r'[+-]?(0|[1-9]\d*)(\.\d+)?([eE][+-]?\d+)?', val):
-- 
2.43.0

