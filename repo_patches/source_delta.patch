From e09b2fc9c0e2c0aaddcf825d1279db2e31ccd918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:56 +0000
Subject: [PATCH 01/44] fix: reference delay times of model depend on the
 reference slowness

---
 rf/simple_model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rf/simple_model.py b/rf/simple_model.py
index 4b8cc66..e0e9ffe 100644
--- a/rf/simple_model.py
+++ b/rf/simple_model.py
@@ -134,9 +134,10 @@ class SimpleModel(object):
             raise ValueError(msg % phase)
         phase = phase.upper()
         try:
-            t_ref = self.t_ref[phase]
+            t_ref = self.t_ref[phase, ref]
         except KeyError:
-            self.t_ref[phase] = t_ref = self.calculate_delay_times(ref, phase)
+            t_ref = self.calculate_delay_times(ref, phase)
+            self.t_ref[phase, ref] = t_ref
         t = self.calculate_delay_times(slowness, phase)
         if phase[0] == 'S':
             t_ref = -t_ref
-- 
2.43.0


From 9049fc3d19b98fbca35514e00a38eaa282d8ab3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:56 +0000
Subject: [PATCH 02/44] fix: moveout does not return nan if only the reference
 phase is evanescent

---
 rf/simple_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rf/simple_model.py b/rf/simple_model.py
index e0e9ffe..bb7870e 100644
--- a/rf/simple_model.py
+++ b/rf/simple_model.py
@@ -143,7 +143,7 @@ class SimpleModel(object):
             t_ref = -t_ref
             t = -t
         try:
-            index = np.nonzero(np.isnan(t))[0][0] - 1
+            index = np.nonzero(np.isnan(t + t_ref))[0][0] - 1
         except IndexError:
             index = len(t)
         t = t[:index]
-- 
2.43.0


From 6bb785d37e103698c02e17dc6467aa6a92809d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:56 +0000
Subject: [PATCH 03/44] fix: sample times in moveout correction of S multiples

---
 rf/simple_model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rf/simple_model.py b/rf/simple_model.py
index bb7870e..544218c 100644
--- a/rf/simple_model.py
+++ b/rf/simple_model.py
@@ -171,8 +171,9 @@ class SimpleModel(object):
             if S_multiple:
                 time0 = st.starttime - st.onset + index0 * st.delta
                 old_data = tr.data[:index0][::-1]
-                t = -time0 - np.arange(index0) * st.delta
-                new_t = -np.interp(-t, -t0, -t1, left=0, right=0)
+                # times of old_data, starting with the last sample before onset
+                t = time0 - (np.arange(index0) + 1) * st.delta
+                new_t = -np.interp(-t, -t0, -t1, left=0, right=None)
                 data = np.interp(-t, -new_t, old_data, left=0., right=0.)
                 tr.data[:index0] = data[::-1]
             else:
-- 
2.43.0


From 6afa50c252bb46c455b5a56c7cb2441ee619cae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:56 +0000
Subject: [PATCH 04/44] fix: delay times were assigned to the depth one layer
 above

---
 rf/simple_model.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/rf/simple_model.py b/rf/simple_model.py
index 544218c..73bf074 100644
--- a/rf/simple_model.py
+++ b/rf/simple_model.py
@@ -105,13 +105,18 @@ class SimpleModel(object):
 
         :param slowness: ray parameter in s/deg
         :param phase: Converted phase or multiple (e.g. Ps, Pppp)
-        :return: delay times at different depths
+        :return: delay times at different depths (z attribute of model
+            instance)
         """
+        return self._delay_times(slowness, phase)[:-1]
+
+    def _delay_times(self, slowness, phase):
+        """Delay times at different depths and at the bottom of the model"""
         phase = phase.upper()
         qp, qs = self.calculate_vertical_slowness(slowness, phase=phase)
         dt = (qp * phase.count('P') + qs * phase.count('S') -
               2 * (qp if phase[0] == 'P' else qs)) * self.dz
-        return np.cumsum(dt)
+        return np.hstack((0., np.cumsum(dt)))
 
     def stretch_delay_times(self, slowness, phase='Ps', ref=6.4):
         """
@@ -136,9 +141,9 @@ class SimpleModel(object):
         try:
             t_ref = self.t_ref[phase, ref]
         except KeyError:
-            t_ref = self.calculate_delay_times(ref, phase)
+            t_ref = self._delay_times(ref, phase)
             self.t_ref[phase, ref] = t_ref
-        t = self.calculate_delay_times(slowness, phase)
+        t = self._delay_times(slowness, phase)
         if phase[0] == 'S':
             t_ref = -t_ref
             t = -t
-- 
2.43.0


From 3400284b27de6cda37e739d05cf6aee3e39da1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:56 +0000
Subject: [PATCH 05/44] fix: stack takes headers from the stacked traces

---
 rf/rfstream.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rf/rfstream.py b/rf/rfstream.py
index 9e113d0..fb94e16 100644
--- a/rf/rfstream.py
+++ b/rf/rfstream.py
@@ -409,12 +409,13 @@ class RFStream(Stream):
         Each trace in the returned stream will correspond to one unique seed
         id.
         """
-        ids = set(tr.id for tr in self)
-        tr = self[0]
+        ids = list(dict.fromkeys(tr.id for tr in self))
         traces = []
         for id in ids:
             net, sta, loc, cha = id.split('.')
-            data = np.mean([tr.data for tr in self if tr.id == id], axis=0)
+            traces_id = [tr for tr in self if tr.id == id]
+            tr = traces_id[0]
+            data = np.mean([tr.data for tr in traces_id], axis=0)
             header = {'network': net, 'station': sta, 'location': loc,
                       'channel': cha, 'sampling_rate': tr.stats.sampling_rate}
             for entry in ('phase', 'moveout', 'station_latitude',
-- 
2.43.0


From 4efd411e42b281eaf20c7d5b06d6b609d388ae63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:56 +0000
Subject: [PATCH 06/44] fix: plot_rf with show_vlines and without traces

---
 rf/imaging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rf/imaging.py b/rf/imaging.py
index 532454f..fbd4fee 100644
--- a/rf/imaging.py
+++ b/rf/imaging.py
@@ -90,6 +90,7 @@ def plot_rf(stream, fname=None, fig_width=7., trace_height=0.5,
     fr = FR / FW
     fw2 = FW2 / FW
     fw3 = FW3 / FW
+    aligner_color = "#a0a0a080"
     # init figure and axes
     fig = plt.figure(figsize=(FW, FH), dpi=dpi)
     if show_traces:
@@ -143,7 +144,6 @@ def plot_rf(stream, fname=None, fig_width=7., trace_height=0.5,
         ax1.set_yticklabels('')
         ax1.set_xlabel('time (s)')
         ax1.xaxis.set_minor_locator(AutoMinorLocator())
-        aligner_color = "#a0a0a080"
         if show_vlines:
             ax1.xaxis.grid(True, color=aligner_color, linestyle=':')
 
-- 
2.43.0


From 8ded0a4adee57b0f8f97c7c7ec45fdaf7341e3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:56 +0000
Subject: [PATCH 07/44] fix: deconv_waterlevel without normalization for a
 single array and with return_info

---
 rf/deconvolve.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rf/deconvolve.py b/rf/deconvolve.py
index ebc0f7d..05017a8 100644
--- a/rf/deconvolve.py
+++ b/rf/deconvolve.py
@@ -229,7 +229,7 @@ def deconv_waterlevel(rsp_list, src, sampling_rate, waterlevel=0.05, gauss=0.5,
         for rf in rf_list:
             rf *= norm
     if return_info:
-        if normalize not in (None, 'src'):
+        if normalize != 'src':
             spec_src = ffilt * spec_src * spec_src_conj / spec_src_water
             rf_src = ifft(spec_src, nfft)[:N]
             norm = 1 / max(rf_src)
@@ -240,7 +240,7 @@ def deconv_waterlevel(rsp_list, src, sampling_rate, waterlevel=0.05, gauss=0.5,
                 'gauss': ffilt, 'norm': norm, 'N': N, 'nfft': nfft}
         return rf_list, info
     elif flag:
-        return rf
+        return rf_list[0]
     else:
         return rf_list
 
-- 
2.43.0


From de0aade0184d00d4ebd088bc579ba0586a3aebd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:56 +0000
Subject: [PATCH 08/44] fix: deconv_iterative accepts a single array as
 documented

---
 rf/deconvolve.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/rf/deconvolve.py b/rf/deconvolve.py
index 05017a8..9f36cb3 100644
--- a/rf/deconvolve.py
+++ b/rf/deconvolve.py
@@ -466,6 +466,10 @@ def deconv_iterative(rsp, src, sampling_rate, tshift=10, gauss=0.5, itmax=400,
     :return: (list of) array(s) with deconvolution(s)
     """
 
+    flag = False
+    if not isinstance(rsp, (list, tuple)):
+        flag = True
+        rsp = [rsp]
     ncomp = len(rsp)    # number of components we're looping over here
     dt = 1 / sampling_rate
     RF_out = []
@@ -518,7 +522,10 @@ def deconv_iterative(rsp, src, sampling_rate, tshift=10, gauss=0.5, itmax=400,
         for RF in RF_out:
             RF *= norm
 
-    return RF_out, it_out, rms_out
+    if flag:
+        return RF_out[0], it_out[0], rms_out[0]
+    else:
+        return RF_out, it_out, rms_out
 
 
 def deconv_multitaper(rsp, src, nse, sampling_rate, tshift, gauss=0.5,
-- 
2.43.0


From bb373ab2450cf6d7796362310e20d57bcf1e08b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:56 +0000
Subject: [PATCH 09/44] fix: time domain deconvolution was off by one sample
 for source windows away from the onset

---
 rf/deconvolve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rf/deconvolve.py b/rf/deconvolve.py
index 9f36cb3..c68f535 100644
--- a/rf/deconvolve.py
+++ b/rf/deconvolve.py
@@ -282,7 +282,7 @@ def _xcorrt(a, b, num, zero_sample=0):
         a = _add_zeros(a, 0, 2 * abs(zero_sample))
     dif = len(a) - len(b) + 1 - num
     if dif > 0:
-        b = _add_zeros(b, (dif + 1) // 2, dif // 2)
+        b = _add_zeros(b, dif // 2, (dif + 1) // 2)
     else:
         a = _add_zeros(a, (-dif + 1) // 2, (-dif) // 2)
     return correlate(a, b, 'valid')
-- 
2.43.0


From aaa132e2b2656f77b87b15652b5ca98e1fd96868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:56 +0000
Subject: [PATCH 10/44] fix: write harmonics and streams without event time to
 H5

---
 rf/rfstream.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/rf/rfstream.py b/rf/rfstream.py
index fb94e16..4d7ce78 100644
--- a/rf/rfstream.py
+++ b/rf/rfstream.py
@@ -199,9 +199,11 @@ class RFStream(Stream):
             if format.upper() == 'Q':
                 tr.stats.station = tr.id
         if format.upper() == 'H5':
-            index = self.type
-            if index is None and 'event_time' in self[0].stats:
-                index = 'rf'
+            index = self.type or 'rf'
+            header = {'rf': 'event_time', 'profile': 'box_pos'}.get(index)
+            # use default index for other types or if header is not set
+            if header is None or not self.__is_set(header):
+                index = None
             if index:
                 import obspyh5
                 old_index = obspyh5._INDEX
-- 
2.43.0


From 4b96355877dee7b95951dbcbaeb0a5e275d9fdc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:56 +0000
Subject: [PATCH 11/44] fix: restore stream and H5 index if writing fails

---
 rf/rfstream.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/rf/rfstream.py b/rf/rfstream.py
index 4d7ce78..e12dd8d 100644
--- a/rf/rfstream.py
+++ b/rf/rfstream.py
@@ -196,8 +196,7 @@ class RFStream(Stream):
             return
         for tr in self:
             tr._write_format_specific_header(format, sh_compat=sh_compat)
-            if format.upper() == 'Q':
-                tr.stats.station = tr.id
+        index = None
         if format.upper() == 'H5':
             index = self.type or 'rf'
             header = {'rf': 'event_time', 'profile': 'box_pos'}.get(index)
@@ -208,12 +207,17 @@ class RFStream(Stream):
                 import obspyh5
                 old_index = obspyh5._INDEX
                 obspyh5.set_index(_H5INDEX[index])
-        super(RFStream, self).write(filename, format, **kwargs)
-        if format.upper() == 'H5' and index:
-            obspyh5.set_index(old_index)
-        if format.upper() == 'Q':
-            for tr in self:
-                tr.stats.station = tr.stats.station.split('.')[1]
+        stations = [tr.stats.station for tr in self]
+        try:
+            if format.upper() == 'Q':
+                for tr in self:
+                    tr.stats.station = tr.id
+            super(RFStream, self).write(filename, format, **kwargs)
+        finally:
+            if index:
+                obspyh5.set_index(old_index)
+            for tr, station in zip(self, stations):
+                tr.stats.station = station
 
     def trim2(self, starttime=None, endtime=None, reftime=None, **kwargs):
         """
-- 
2.43.0


From 709252d37b534470abd10976fafbda122b89a818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:56 +0000
Subject: [PATCH 12/44] fix: ignore comments in Q files not written by rf

---
 rf/rfstream.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rf/rfstream.py b/rf/rfstream.py
index e12dd8d..f0f8f60 100644
--- a/rf/rfstream.py
+++ b/rf/rfstream.py
@@ -560,9 +560,9 @@ class RFTrace(Trace):
                     pass
                 elif format == 'sh' and head_format == 'COMMENT':
                     try:
-                        st.update(json.loads(value))
-                    except json.JSONDecodeError:
-                        pass
+                        st[head] = json.loads(value)[head]
+                    except (ValueError, TypeError, LookupError):
+                        pass  # comment was not written by rf
                     continue
                 else:
                     st[head] = value
-- 
2.43.0


From b51c3e5a2c34e16bb607362687a058a625a890ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:56 +0000
Subject: [PATCH 13/44] fix: set components entry for all unmodelled harmonics

---
 rf/harmonics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rf/harmonics.py b/rf/harmonics.py
index 0e121dc..03b79b6 100644
--- a/rf/harmonics.py
+++ b/rf/harmonics.py
@@ -129,7 +129,7 @@ def harmonics(stream, components='R', azim=0, method='time', **kwargs):
             out[i].stats['channel'] = str(i-5)
             out[i].stats['term'] = terms[i-5]
             out[i].stats['location'] = 'unmod'
-        out[i].stats['components'] = components
+            out[i].stats['components'] = components
     return out
 
 
-- 
2.43.0


From 1c67a89f932aff619ddd9210b037fcfc65a068d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:56 +0000
Subject: [PATCH 14/44] fix: downsample to sampling rates given as float

---
 rf/rfstream.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rf/rfstream.py b/rf/rfstream.py
index f0f8f60..3950ce0 100644
--- a/rf/rfstream.py
+++ b/rf/rfstream.py
@@ -327,7 +327,9 @@ class RFStream(Stream):
         if downsample:
             for tr in self:
                 if downsample <= tr.stats.sampling_rate:
-                    tr.decimate(int(tr.stats.sampling_rate) // downsample)
+                    factor = tr.stats.sampling_rate / downsample
+                    # add small number because of limited precision of rates
+                    tr.decimate(int(factor * (1 + 1e-6)))
         if rotate:
             for stream3c in iter3c(self):
                 stream3c.rotate(rotate)
-- 
2.43.0


From a74a0831c38f2a1e04d84ea5046ca61e9951edb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:56 +0000
Subject: [PATCH 15/44] fix: iter_event_data skips events without origin and
 missing or unusable data

---
 rf/util.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/rf/util.py b/rf/util.py
index 77a4d41..80edd1a 100644
--- a/rf/util.py
+++ b/rf/util.py
@@ -60,11 +60,11 @@ def iter_event_data(events, inventory, get_waveforms, phase='P',
     for event, seedid in itertools.product(events, stations):
         if pbar is not None:
             pbar.update(1)
-        origin_time = (event.preferred_origin() or event.origins[0])['time']
         try:
-            args = (seedid[:-1] + stations[seedid], origin_time)
+            origin = event.preferred_origin() or event.origins[0]
+            args = (seedid[:-1] + stations[seedid], origin['time'])
             coords = inventory.get_coordinates(*args)
-        except Exception:  # station not available at that time
+        except Exception:  # no origin or station not available at that time
             continue
         try:
             stats = rfstats(station=coords, event=event, phase=phase, **kwargs)
@@ -83,10 +83,10 @@ def iter_event_data(events, inventory, get_waveforms, phase='P',
                'endtime': endtime + pad}
         try:
             stream = get_waveforms(**kws)
-        except Exception:  # no data available
+            stream.trim(starttime, endtime)
+            stream.merge()
+        except Exception:  # no data available or data is not usable
             continue
-        stream.trim(starttime, endtime)
-        stream.merge()
         if len(stream) != 3:
             from warnings import warn
             warn('Need 3 component seismograms. %d components '
-- 
2.43.0


From ce978347e0ce512d2ce71e5b9448babf19049536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:56 +0000
Subject: [PATCH 16/44] fix: rfstats uses event or station if only one of both
 is given

---
 rf/rfstream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rf/rfstream.py b/rf/rfstream.py
index 3950ce0..dc4f658 100644
--- a/rf/rfstream.py
+++ b/rf/rfstream.py
@@ -709,7 +709,7 @@ def rfstats(obj=None, event=None, station=None,
     elif dist_range == 'default':
         raise ValueError('Please specify dist_range parameter')
     stats = AttribDict({}) if obj is None else obj
-    if event is not None and station is not None:
+    if event is not None or station is not None:
         stats.update(obj2stats(event=event, station=station))
     dist, baz, _ = gps2dist_azimuth(stats.station_latitude,
                                     stats.station_longitude,
-- 
2.43.0


From d56aa4af229b0ba4a689b9836c20f53e3a11cc0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:56 +0000
Subject: [PATCH 17/44] fix: position of histogram bars in profile plot

---
 rf/imaging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rf/imaging.py b/rf/imaging.py
index fbd4fee..2276eaf 100644
--- a/rf/imaging.py
+++ b/rf/imaging.py
@@ -362,7 +362,7 @@ def plot_profile(profile, fname=None, figsize=None, dpi=None,
     if top == 'hist':
         left = [tr.stats.box_pos - tr.stats.box_length / 2 for tr in profile]
         height = [tr.stats.num for tr in profile]
-        ax3.bar(left, height, widths, color='cadetblue')
+        ax3.bar(left, height, widths, align='edge', color='cadetblue')
         plt.setp(ax3.get_xticklabels(), visible=False)
         ax3.spines['top'].set_color('none')
         ax3.spines['right'].set_color('none')
-- 
2.43.0


From 842522b7ca0c1997bab76b57e30c9ff5368e35dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:56 +0000
Subject: [PATCH 18/44] fix: scaling of second panel in harmonics plot

---
 rf/imaging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rf/imaging.py b/rf/imaging.py
index 2276eaf..0e9ef6d 100644
--- a/rf/imaging.py
+++ b/rf/imaging.py
@@ -418,7 +418,7 @@ def plot_harmonics(hd, hd2=None, fillcolors=('b', 'r'), trim=None):
     if hd2:
         ref1 = max(abs(hd2.select(channel='0', location='mod')[0].data))
         for tr in hd2.select(location='mod'):
-            if max(abs(tr.data)) > ref0:
+            if max(abs(tr.data)) > ref1:
                 ref1 = max(abs(tr.data))
         unmod = hd2.select(location='mod')
     else:
-- 
2.43.0


From a30389c6198faa757396668b4b4f812b62889f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:56 +0000
Subject: [PATCH 19/44] fix: reject commands given twice for rf data

---
 rf/batch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rf/batch.py b/rf/batch.py
index 05a8129..0da0169 100644
--- a/rf/batch.py
+++ b/rf/batch.py
@@ -255,7 +255,7 @@ def run_commands(command, commands=(), events=None, inventory=None,
         kw['boxes']['bins'] = np.linspace(*kw['boxbins'])
 
     try:
-        if command == 'calc':
+        if command == 'data':
             assert len(commands) < 3
             if len(commands) == 2:
                 assert commands[0] != commands[1]
-- 
2.43.0


From a31f37f9433e368e771e588866d63fdbad670497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:46 +0000
Subject: [PATCH 20/44] fix: rf uses the traces returned by deconvolution

---
 rf/rfstream.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/rf/rfstream.py b/rf/rfstream.py
index dc4f658..79219f7 100644
--- a/rf/rfstream.py
+++ b/rf/rfstream.py
@@ -344,11 +344,23 @@ class RFStream(Stream):
             if tr.stats.channel.endswith('Q'):
                 tr.data = -tr.data
         if deconvolve:
+            replace = {}
             for stream3c in iter3c(self):
+                old = stream3c.traces
                 kwargs.setdefault('winsrc', method)
                 stream3c.deconvolve(method=deconvolve,
                                     source_components=source_components,
                                     **kwargs)
+                # traces may be missing in the result (response_components)
+                # or may be new objects (user defined function)
+                ids = [id(tr) for tr in stream3c]
+                new = [tr for tr in stream3c
+                       if not any(tr is tr2 for tr2 in old)]
+                for tr in old:
+                    replace[id(tr)] = ([tr] if id(tr) in ids else
+                                       [new.pop(0)] if new else [])
+            self.traces = [tr2 for tr in self
+                           for tr2 in replace.get(id(tr), [tr])]
         # Mirrow Q/R and T component at 0s for S-receiver method for a better
         # comparison with P-receiver method (converted Sp wave arrives before
         # S wave, but converted Ps wave arrives after P wave)
-- 
2.43.0


From fb3a79aff82496f5b7addff89a5b9dc4affe3be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:46 +0000
Subject: [PATCH 21/44] fix: geometry of profile boxes for large widths and at
 the date line

---
 rf/profile.py | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/rf/profile.py b/rf/profile.py
index 07893a3..30f064d 100644
--- a/rf/profile.py
+++ b/rf/profile.py
@@ -10,22 +10,32 @@ from rf.util import _add_processing_info, direct_geodetic
 _LARGE_BOX_WIDTH = 2000
 
 
+def _profile_lonlat(latlon0, azimuth, x, y):
+    """Return lonlat of point x km along and y km to the right of profile."""
+    from geographiclib.geodesic import Geodesic
+    mask = Geodesic.STANDARD | Geodesic.LONG_UNROLL  # for date line
+    p = Geodesic.WGS84.Direct(*latlon0, azimuth, x * 1000, mask)
+    p = Geodesic.WGS84.Direct(p['lat2'], p['lon2'], p['azi2'] + 90, y * 1000,
+                              mask)
+    return p['lon2'], p['lat2']
+
+
 def _get_box(latlon0, azimuth, length, width=_LARGE_BOX_WIDTH, offset=0):
     """Create a single box."""
     from shapely.geometry import Polygon
-    start = direct_geodetic(latlon0, azimuth, offset)
-    azis = ((azimuth - 90) % 360, azimuth,
-            (azimuth + 90) % 360, (azimuth + 180) % 360)
-    dists = (width/2, length, width, length)
-    latlon = start
-    corners = []
-    for a, d in zip(azis, dists):
-        latlon = direct_geodetic(latlon, a, d)
-        corners.append(latlon[::-1])
-    box = {'poly': Polygon(corners),
+    # support points of the edges along and across the profile,
+    # first and last point are the corners of the box
+    along = np.linspace(offset, offset + length, int(length // 100) + 2)
+    across = np.linspace(-width/2, width/2, 2 * int(width // 200) + 3)
+    points = ([(x, across[0]) for x in along] +
+              [(along[-1], y) for y in across[1:]] +
+              [(x, across[-1]) for x in along[::-1][1:]] +
+              [(along[0], y) for y in across[::-1][1:-1]])
+    box = {'poly': Polygon([_profile_lonlat(latlon0, azimuth, *p)
+                            for p in points]),
            'length': length,
            'pos': offset + length/2,
-           'latlon': direct_geodetic(start, azimuth, length/2)}
+           'latlon': direct_geodetic(latlon0, azimuth, offset + length/2)}
     return box
 
 
-- 
2.43.0


From 124a7f5afec67f6fb26fa9b924424c3e2bd55921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:06 +0000
Subject: [PATCH 22/44] fix: number signs inside strings of the configuration
 are not comments

---
 rf/batch.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rf/batch.py b/rf/batch.py
index 0da0169..9e5a3f5 100644
--- a/rf/batch.py
+++ b/rf/batch.py
@@ -10,6 +10,7 @@ import json
 import os
 from os.path import join
 from pkg_resources import resource_filename
+import re
 import shutil
 import sys
 
@@ -180,7 +181,8 @@ class ConfigJSONDecoder(json.JSONDecoder):
     """Strip lines from comments."""
 
     def decode(self, s):
-        s = '\n'.join(l.split('#', 1)[0] for l in s.split('\n'))
+        # keep number signs inside strings
+        s = re.sub(r'("(?:[^"\\\n]|\\.)*")|#.*', r'\1', s)
         return super(ConfigJSONDecoder, self).decode(s)
 
 
-- 
2.43.0


From 1156f93b8350ba13c9a98825f35cd40cc8035ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:58 +0000
Subject: [PATCH 23/44] fix: deconvolution if onset is at the last sample

---
 rf/deconvolve.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rf/deconvolve.py b/rf/deconvolve.py
index c68f535..bd3b77e 100644
--- a/rf/deconvolve.py
+++ b/rf/deconvolve.py
@@ -13,8 +13,8 @@ from rf.util import _add_processing_info
 def __find_nearest(array, value):
     """http://stackoverflow.com/a/26026189"""
     idx = np.searchsorted(array, value, side='left')
-    expr = np.abs(value - array[idx - 1]) < np.abs(value - array[idx])
-    if idx > 0 and (idx == len(array) or expr):
+    if idx > 0 and (idx == len(array) or
+                    np.abs(value - array[idx - 1]) < np.abs(value - array[idx])):
         return idx - 1
     else:
         return idx
-- 
2.43.0


From a31062e23110c27dc98f9433c7ad507e272dc09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:40 +0000
Subject: [PATCH 24/44] fix: waterlevel deconvolution truncated source windows
 longer than the record

---
 rf/deconvolve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rf/deconvolve.py b/rf/deconvolve.py
index bd3b77e..32bc5a0 100644
--- a/rf/deconvolve.py
+++ b/rf/deconvolve.py
@@ -200,7 +200,7 @@ def deconv_waterlevel(rsp_list, src, sampling_rate, waterlevel=0.05, gauss=0.5,
         length = __get_length(rsp_list)
     N = length
     if nfft is None:
-        nfft = next_fast_len(N)
+        nfft = next_fast_len(N if N > len(src) else len(src))
     dt = 1. / sampling_rate
     ffilt = _phase_shift_filter(nfft, dt, tshift)
     if gauss is not None:
-- 
2.43.0


From b7d3cca333393adcba98c000fcddcfa536e0d4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:27 +0000
Subject: [PATCH 25/44] fix: iterative deconvolution of data with very small
 amplitudes

---
 rf/deconvolve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rf/deconvolve.py b/rf/deconvolve.py
index 32bc5a0..8a4a3ad 100644
--- a/rf/deconvolve.py
+++ b/rf/deconvolve.py
@@ -491,7 +491,7 @@ def deconv_iterative(rsp, src, sampling_rate, tshift=10, gauss=0.5, itmax=400,
 
         it = 0
         sumsq_i = 1
-        d_error = 100*powerR + minderr
+        d_error = np.inf
         mute_min = len(r0)
         mute_max = nfft if mute_shift else nfft - int(tshift*sampling_rate)
         while np.abs(d_error) > minderr and it < itmax:  # loop iterations, add spikes
-- 
2.43.0


From 633064cebddec6b06290394bff43909dadbf61c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:30 +0000
Subject: [PATCH 26/44] fix: deconvolution of integer data

---
 rf/deconvolve.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rf/deconvolve.py b/rf/deconvolve.py
index 8a4a3ad..2921a47 100644
--- a/rf/deconvolve.py
+++ b/rf/deconvolve.py
@@ -120,6 +120,8 @@ def deconvolve(stream, method='time', func=None,
     # prepare source and response list
     if src in rsp:
         src = src.copy()
+    if src.data.dtype.kind != 'f':  # taper is applied in-place
+        src.data = src.data.astype(float)
     src.trim(onset + winsrc[0], onset + winsrc[1], pad=True, fill_value=0.)
     src.taper(max_percentage=None, max_length=winsrc[2])
     tshift = -winsrc[0]
-- 
2.43.0


From 6bd193991951e0dc7a01c6450eb4121f56cf82d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:39 +0000
Subject: [PATCH 27/44] fix: models without support points can be given as
 lists

---
 rf/simple_model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rf/simple_model.py b/rf/simple_model.py
index 73bf074..14fb73f 100644
--- a/rf/simple_model.py
+++ b/rf/simple_model.py
@@ -71,10 +71,10 @@ class SimpleModel(object):
             z = _interpolate_n(z, n)
             vp = _interpolate_n(vp, n)
             vs = _interpolate_n(vs, n)
-        self.z = z[:-1]
+        self.z = np.array(z[:-1])
         self.dz = np.diff(z)
-        self.vp = vp[:-1]
-        self.vs = vs[:-1]
+        self.vp = np.array(vp[:-1])
+        self.vs = np.array(vs[:-1])
         self.t_ref = {}
 
     def calculate_vertical_slowness(self, slowness, phase='PS'):
-- 
2.43.0


From b620645f8dd7bad3803dfb7f1e95a114023f8ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:19 +0000
Subject: [PATCH 28/44] fix: samples next to the onset in moveout correction of
 S multiples

---
 rf/simple_model.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/rf/simple_model.py b/rf/simple_model.py
index 14fb73f..d572206 100644
--- a/rf/simple_model.py
+++ b/rf/simple_model.py
@@ -175,12 +175,12 @@ class SimpleModel(object):
             S_multiple = phase[0].upper() == 'S' and len(phase) > 3
             if S_multiple:
                 time0 = st.starttime - st.onset + index0 * st.delta
-                old_data = tr.data[:index0][::-1]
-                # times of old_data, starting with the last sample before onset
-                t = time0 - (np.arange(index0) + 1) * st.delta
+                old_data = tr.data[:index0 + 1][::-1]
+                # times of old_data, starting with the sample at or before onset
+                t = time0 - np.arange(index0 + 1) * st.delta
                 new_t = -np.interp(-t, -t0, -t1, left=0, right=None)
-                data = np.interp(-t, -new_t, old_data, left=0., right=0.)
-                tr.data[:index0] = data[::-1]
+                data = np.interp(-t, -new_t, old_data, left=None, right=0.)
+                tr.data[:index0 + 1] = data[::-1]
             else:
                 if t0[-1] > t1[-1]:
                     index0 += 1
-- 
2.43.0


From dcfd23a0816bb2532a784b5c46db26831ff65925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:11 +0000
Subject: [PATCH 29/44] fix: moveout next to the onset and for traces at the
 reference slowness

---
 rf/simple_model.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/rf/simple_model.py b/rf/simple_model.py
index d572206..93f19ea 100644
--- a/rf/simple_model.py
+++ b/rf/simple_model.py
@@ -169,7 +169,9 @@ class SimpleModel(object):
             if not (st.starttime <= st.onset <= st.endtime):
                 msg = 'onset time is not between starttime and endtime of data'
                 raise ValueError(msg)
-            index0 = int(floor((st.onset - st.starttime) * st.sampling_rate))
+            # add small number, because onset might be on a sample
+            index0 = int(floor((st.onset - st.starttime) * st.sampling_rate +
+                               1e-6))
             t0, t1 = self.stretch_delay_times(st.slowness, phase=phase,
                                               ref=ref)
             S_multiple = phase[0].upper() == 'S' and len(phase) > 3
@@ -178,17 +180,17 @@ class SimpleModel(object):
                 old_data = tr.data[:index0 + 1][::-1]
                 # times of old_data, starting with the sample at or before onset
                 t = time0 - np.arange(index0 + 1) * st.delta
-                new_t = -np.interp(-t, -t0, -t1, left=0, right=None)
+                new_t = -(np.minimum(-t, -t0[-1]) +
+                          np.interp(-t, -t0, t0 - t1))
                 data = np.interp(-t, -new_t, old_data, left=None, right=0.)
                 tr.data[:index0 + 1] = data[::-1]
             else:
-                if t0[-1] > t1[-1]:
-                    index0 += 1
                 time0 = st.starttime - st.onset + index0 * st.delta
                 old_data = tr.data[index0:]
                 t = time0 + np.arange(len(tr) - index0) * st.delta
-                # stretch old times to new times
-                new_t = np.interp(t, t0, t1, left=0, right=None)
+                # stretch old times to new times, interpolate the shift,
+                # so that times do not change at all for zero shift
+                new_t = np.minimum(t, t0[-1]) + np.interp(t, t0, t1 - t0)
                 # interpolate data at new times to data samples
                 data = np.interp(t, new_t, old_data, left=None, right=0.)
                 tr.data[index0:] = data
-- 
2.43.0


From b414918d473bb7c556bbb3a59dc493c4edd8c291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:03 +0000
Subject: [PATCH 30/44] fix: stack and profile do not change the processing
 information of the input

---
 rf/profile.py  | 4 +++-
 rf/rfstream.py | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/rf/profile.py b/rf/profile.py
index 30f064d..0c476ff 100644
--- a/rf/profile.py
+++ b/rf/profile.py
@@ -3,6 +3,8 @@
 """
 Functions for receiver function profile calculation.
 """
+from copy import deepcopy
+
 import numpy as np
 from rf.util import _add_processing_info, direct_geodetic
 
@@ -115,7 +117,7 @@ def profile(stream, boxes, crs=None):
                       'channel': '??' + comp}
             for entry in ('slowness', 'phase', 'moveout', 'processing'):
                 if entry in tr.stats:
-                    header[entry] = tr.stats[entry]
+                    header[entry] = deepcopy(tr.stats[entry])
             stack[key] = tr2 = tr.__class__(data=tr.data, header=header)
             if 'onset' in tr.stats:
                 onset = tr.stats.onset - tr.stats.starttime
diff --git a/rf/rfstream.py b/rf/rfstream.py
index 79219f7..99f6ef3 100644
--- a/rf/rfstream.py
+++ b/rf/rfstream.py
@@ -3,6 +3,7 @@
 """
 Classes and functions for receiver function calculation.
 """
+from copy import deepcopy
 import json
 from operator import itemgetter
 from pkg_resources import resource_filename
@@ -442,7 +443,7 @@ class RFStream(Stream):
                           'station_longitude', 'station_elevation',
                           'processing'):
                 if entry in tr.stats:
-                    header[entry] = tr.stats[entry]
+                    header[entry] = deepcopy(tr.stats[entry])
             tr2 = RFTrace(data=data, header=header)
             if 'onset' in tr.stats:
                 onset = tr.stats.onset - tr.stats.starttime
-- 
2.43.0


From 176c83557924999521a21f2759aee13f07e9084a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:04 +0000
Subject: [PATCH 31/44] fix: removed headers are not written again after
 reading from SAC or Q

---
 rf/rfstream.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rf/rfstream.py b/rf/rfstream.py
index 99f6ef3..a11b031 100644
--- a/rf/rfstream.py
+++ b/rf/rfstream.py
@@ -615,6 +615,8 @@ class RFTrace(Trace):
             try:
                 val = st[head]
             except KeyError:
+                # the value of a removed header may be left from reading
+                st[format].pop(head_format, None)
                 continue
             try:
                 convert = _HEADER_CONVERSIONS[format][head][1]
@@ -630,6 +632,10 @@ class RFTrace(Trace):
                     return np.asarray(obj).item()
                 st[format]['COMMENT'] = json.dumps(
                     comment, separators=(',', ':'), default=default)
+            elif any('"%s":' % head in str(st[format].get('COMMENT'))
+                     for head in _HEADERS):
+                # comment left from reading
+                st[format].pop('COMMENT')
 
     def _seconds2utc(self, seconds, reftime=None):
         """Return UTCDateTime given as seconds relative to reftime"""
-- 
2.43.0


From e0edc87061ff71e89cde2a773cfe161a809ed67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:26 +0000
Subject: [PATCH 32/44] fix: text and method of traces with blank phase

---
 rf/rfstream.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rf/rfstream.py b/rf/rfstream.py
index a11b031..c262b58 100644
--- a/rf/rfstream.py
+++ b/rf/rfstream.py
@@ -174,7 +174,7 @@ class RFStream(Stream):
     def method(self):
         """Property for used rf method, 'P' or 'S'"""
         phase = self.__get_unique_header('phase')
-        if phase is not None:
+        if phase:
             return phase[-1].upper()
 
     @method.setter
@@ -515,7 +515,7 @@ class RFTrace(Trace):
         type_ = self.stats.get('type')
         if type_ is not None:
             m = self.stats.get('phase')
-            m = m[-1].upper() if m is not None else ''
+            m = m[-1:].upper() if m is not None else ''
             o1 = m + 'rf'
             if type_ != 'rf':
                 o1 = o1 + ' ' + type_
-- 
2.43.0


From bfcbf8dd51bd2cf7ca590f494f0dca77108b49a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:26 +0000
Subject: [PATCH 33/44] fix: read SAC files with undefined reference time or
 not finite times

---
 rf/rfstream.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/rf/rfstream.py b/rf/rfstream.py
index c262b58..dd93722 100644
--- a/rf/rfstream.py
+++ b/rf/rfstream.py
@@ -49,8 +49,13 @@ def __get_event_id(event):
 
 
 def __SAC2UTC(stats, head):
-    from obspy.io.sac.util import get_sac_reftime
-    return get_sac_reftime(stats.sac) + stats[head]
+    from obspy.io.sac.util import SacHeaderTimeError, get_sac_reftime
+    try:
+        reftime = get_sac_reftime(stats.sac)
+    except SacHeaderTimeError:
+        # reference time is not set, ObsPy uses 0 for the start time
+        reftime = stats.starttime - stats.sac.get('b', 0)
+    return reftime + stats[head]
 
 
 def __UTC2SAC(stats, head):
@@ -583,9 +588,12 @@ class RFTrace(Trace):
                     st[head] = value
             try:
                 convert = _HEADER_CONVERSIONS[format][head][0]
-                st[head] = convert(st, head)
             except KeyError:
-                pass
+                continue
+            try:
+                st[head] = convert(st, head)
+            except (ValueError, OverflowError):
+                del st[head]  # nan or inf
 
     def _write_format_specific_header(self, format, sh_compat=False):
         st = self.stats
-- 
2.43.0


From 07d3799cb6e8983c2f28d3a4cbc6cc7e47cc018c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:59 +0000
Subject: [PATCH 34/44] fix: headers of a trace are not replaced by the values
 in its file

---
 rf/rfstream.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rf/rfstream.py b/rf/rfstream.py
index dd93722..169b8ec 100644
--- a/rf/rfstream.py
+++ b/rf/rfstream.py
@@ -571,6 +571,8 @@ class RFTrace(Trace):
             # file format is H5 or not supported
             return
         for head, head_format in header_map:
+            if head in st:
+                continue  # header of a trace which was read before
             try:
                 value = st[format][head_format]
             except KeyError:
-- 
2.43.0


From c181feef96536d8a9ec4b1ed24f56e4ea0592714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:24 +0000
Subject: [PATCH 35/44] fix: times read from SAC files are shortest decimal
 numbers

---
 rf/rfstream.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rf/rfstream.py b/rf/rfstream.py
index 169b8ec..1cc5d4c 100644
--- a/rf/rfstream.py
+++ b/rf/rfstream.py
@@ -55,7 +55,8 @@ def __SAC2UTC(stats, head):
     except SacHeaderTimeError:
         # reference time is not set, ObsPy uses 0 for the start time
         reftime = stats.starttime - stats.sac.get('b', 0)
-    return reftime + stats[head]
+    # shortest decimal number, otherwise times will be slightly off
+    return reftime + float(str(np.float32(stats[head])))
 
 
 def __UTC2SAC(stats, head):
-- 
2.43.0


From 4a86096877a322fe1b44c907ef8a2cdcf75ec435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:37 +0000
Subject: [PATCH 36/44] fix: run_commands accepts catalog and list of events

---
 rf/batch.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rf/batch.py b/rf/batch.py
index 9e5a3f5..25170b8 100644
--- a/rf/batch.py
+++ b/rf/batch.py
@@ -271,8 +271,7 @@ def run_commands(command, commands=(), events=None, inventory=None,
         if command in ('stack', 'plot'):
             events = None
         elif command != 'print' or objects[0] == 'events':
-            if (not isinstance(events, obspy.Catalog) or
-                    not isinstance(events, list) or
+            if (not isinstance(events, (obspy.Catalog, list)) or
                     (len(events) == 2 and isinstance(events[0], basestring))):
                 if isinstance(events, basestring):
                     format_ = None
-- 
2.43.0


From f63ab3e528bbfe3dd21429ba6ea627a2c9852bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:37 +0000
Subject: [PATCH 37/44] fix: message for configurations and options which are
 no JSON objects

---
 rf/batch.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rf/batch.py b/rf/batch.py
index 25170b8..64760e9 100644
--- a/rf/batch.py
+++ b/rf/batch.py
@@ -219,6 +219,8 @@ def run(command, conf=None, tutorial=False, **kw):
         try:
             with open(conf) as f:
                 conf = json.load(f, cls=ConfigJSONDecoder)
+            if not isinstance(conf, dict):
+                raise ValueError('configuration has to be a JSON object')
         except ValueError as ex:
             print('Error while parsing the configuration: %s' % ex)
             return
@@ -248,7 +250,10 @@ def run_commands(command, commands=(), events=None, inventory=None,
         default = None if opt == 'boxbins' else {}
         d = kw.setdefault(opt, default)
         if isinstance(d, basestring):
-            kw[opt] = json.loads(d)
+            try:
+                kw[opt] = json.loads(d)
+            except ValueError as ex:
+                raise ParseError('Cannot parse option %s: %s' % (opt, ex))
     if phase is not None:
         kw['options']['phase'] = phase
     if moveout_phase is not None:
-- 
2.43.0


From 7f86f05f9d3e0cc980ad1a90d4d6cbf892d334ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:33 +0000
Subject: [PATCH 38/44] fix: moveout of integer data and data shared with other
 traces

---
 rf/simple_model.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rf/simple_model.py b/rf/simple_model.py
index 93f19ea..593b9ed 100644
--- a/rf/simple_model.py
+++ b/rf/simple_model.py
@@ -174,6 +174,11 @@ class SimpleModel(object):
                                1e-6))
             t0, t1 = self.stretch_delay_times(st.slowness, phase=phase,
                                               ref=ref)
+            # data might be integers or shared with other traces (slices)
+            if tr.data.dtype.kind == 'f':
+                tr.data = tr.data.copy()
+            else:
+                tr.data = tr.data.astype(float)
             S_multiple = phase[0].upper() == 'S' and len(phase) > 3
             if S_multiple:
                 time0 = st.starttime - st.onset + index0 * st.delta
-- 
2.43.0


From d2f96e03eb0f1e61a85778140b1714ac9d64b088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:33 +0000
Subject: [PATCH 39/44] fix: data of events with overlapping windows is
 independent in batch tool

---
 rf/batch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rf/batch.py b/rf/batch.py
index 64760e9..10cb7da 100644
--- a/rf/batch.py
+++ b/rf/batch.py
@@ -160,7 +160,8 @@ def init_data(data, client_options=None, plugin=None):
                           starttime, endtime, event=None):
             st = stream.select(network=network, station=station,
                                location=location, channel=channel)
-            st = st.slice(starttime, endtime)
+            # windows of different events might overlap
+            st = st.slice(starttime, endtime).copy()
             return st
 
     def wrapper(**kwargs):
-- 
2.43.0


From a5dfbf7632564aac53d59f5d32337e50b78bff89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:25 +0000
Subject: [PATCH 40/44] fix: all color names in info axes of plot_rf

---
 rf/imaging.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rf/imaging.py b/rf/imaging.py
index 0e9ef6d..e86f66a 100644
--- a/rf/imaging.py
+++ b/rf/imaging.py
@@ -127,7 +127,8 @@ def plot_rf(stream, fname=None, fig_width=7., trace_height=0.5,
     if info:
         for ax, header, label, color in info:
             data = [tr.stats[header] for tr in stream]
-            ax.plot(data, 1 + np.arange(len(stream)), '.' + color, mec=color)
+            ax.plot(data, 1 + np.arange(len(stream)), '.', color=color,
+                    mec=color)
             ax.set_xlabel(label, color=color, size='small')
             if header == 'back_azimuth':
                 ax.set_xticks(np.arange(5) * 90)
-- 
2.43.0


From e2df67ebb190e60d5029eb9f7eb930d46d4f84ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:10 +0000
Subject: [PATCH 41/44] fix: depth labels below the model in profile plot

---
 rf/imaging.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rf/imaging.py b/rf/imaging.py
index e86f66a..616de0c 100644
--- a/rf/imaging.py
+++ b/rf/imaging.py
@@ -348,6 +348,9 @@ def plot_profile(profile, fname=None, figsize=None, dpi=None,
             dkm = 200
         d1 = np.arange(20) * dkm
         d2 = np.arange(100) * dkm / 5
+        # delay times are not known below the model
+        d1 = d1[d1 <= model.z[-1]]
+        d2 = d2[d2 <= model.z[-1]]
         t1 = np.interp(d1, model.z, pd)
         t2 = np.interp(d2, model.z, pd)
         myLocator = FixedLocator(t1)
-- 
2.43.0


From bab597a931a13503a9f7a9a2d4b0882fb3c0b2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:54 +0000
Subject: [PATCH 42/44] fix: read SAC files with all fields (debug_headers)

---
 rf/rfstream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rf/rfstream.py b/rf/rfstream.py
index 1cc5d4c..f563ade 100644
--- a/rf/rfstream.py
+++ b/rf/rfstream.py
@@ -580,7 +580,7 @@ class RFTrace(Trace):
                 continue
             else:
                 if format == 'sac' and '-12345' in str(value):
-                    pass
+                    continue  # field is not set
                 elif format == 'sh' and head_format == 'COMMENT':
                     try:
                         st[head] = json.loads(value)[head]
-- 
2.43.0


From 633e33167fe5d399ade91dbfc67dbd305240d05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:24 +0000
Subject: [PATCH 43/44] fix: events without origin time are skipped by the
 batch commands as they are for data

---
 rf/util.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rf/util.py b/rf/util.py
index 80edd1a..ec4f62e 100644
--- a/rf/util.py
+++ b/rf/util.py
@@ -124,7 +124,12 @@ def iter_event_metadata(events, inventory, pbar=None):
         meta = {'network': net, 'station': sta, 'location': loc,
                 'channel': cha}
         if event is not None:
-            ot = (event.preferred_origin() or event.origins[0])['time']
+            try:
+                ot = (event.preferred_origin() or event.origins[0])['time']
+            except IndexError:
+                ot = None
+            if ot is None:
+                continue  # event without origin time
             meta['event_time'] = ot
         yield meta
 
-- 
2.43.0


From 12dedd64f2adf39da5cfe174ecdaf5d296bf810e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:49 +0000
Subject: [PATCH 44/44] fix: models with integer velocities

---
 rf/simple_model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rf/simple_model.py b/rf/simple_model.py
index 593b9ed..c7bba49 100644
--- a/rf/simple_model.py
+++ b/rf/simple_model.py
@@ -73,8 +73,9 @@ class SimpleModel(object):
             vs = _interpolate_n(vs, n)
         self.z = np.array(z[:-1])
         self.dz = np.diff(z)
-        self.vp = np.array(vp[:-1])
-        self.vs = np.array(vs[:-1])
+        # velocities might be integers
+        self.vp = np.array(vp[:-1], dtype=float)
+        self.vs = np.array(vs[:-1], dtype=float)
         self.t_ref = {}
 
     def calculate_vertical_slowness(self, slowness, phase='PS'):
-- 
2.43.0

